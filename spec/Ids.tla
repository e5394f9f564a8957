-------------------------------- MODULE Ids ---------------------------------
(***************************************************************************)
(* IDs and ID lists as values.  An ID is an index into the ascending list  *)
(* of numbers the harness uses, 0 for the invalid ID.  A list is           *)
(* duplicate-free; its order is open after a concatenation until sorted.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NN, Slots, Lists, MaxLen, Depth, Walk, Record,
          Wide  \* TRUE: long lists of other numbers than those of the texts

VARIABLES id, list, ord, ops, n, fin
vars == <<id, list, ord, ops, n, fin>>

Range(q) == {q[i] : i \in DOMAIN q}
\* texts and the number they denote: 0 zero, -1 none
T(t, v) == [t |-> t, v |-> v]
Canon == <<T("1", 1), T("2", 2), T("10", 3), T("9007199254740993", 4), T("9223372036854775807", 5), T("9223372036854775808", 6), T("18446744073709551615", 7)>>
Texts == Range(Canon) \cup {T("001", 1), T("00000000000000000000000000002", 2), T("0000010", 3), T("0", 0), T("00", 0), T("0000", 0)}
        \cup {T(t, -1) : t \in {"", " 1", "1 ", "-1", "+1", "1.0", "1e1", "0x1", "1_0", "18446744073709551616", "99999999999999999999999", "a", "1a", "NULL", "-0", "\t2", "2,10", "\"1\"", "'1'", "18446744073709551617", "1 2", "_1", "_10", "1_", "#1", "1,", "1;", "id:1", "+10", "0b1", "0o1", "1L", "1.", ".1", "1e0", "1_000", "1,000", "2\n", "\r1", "{1}", "(1)", "[1]", "1/1", "%31", "&1"}}
YamlTexts == Range(Canon) \cup {T("0", 0), T("''", 0), T("\"\"", 0), T("-1", -1), T("a", -1), T("[1]", -1), T("1.5", -1), T("0x1", -1), T("1_0", -1), T("+1", -1), T("1e1", -1), T("18446744073709551616", -1), T("true", -1), T("_1", -1), T("1e0", -1), T("0b1", -1), T("1,000", -1)}
JsonPlain == Range(Canon) \cup {T("0", 0), T("-1", -1), T("1.0", -1), T("1e1", -1), T("[1]", -1), T("{}", -1), T("true", -1), T("18446744073709551616", -1)}
Dup(q) == Cardinality(Range(q)) # Len(q)
RECURSIVE Dedupe(_)
Dedupe(q) == IF q = <<>> THEN <<>> ELSE LET p == SubSeq(q, 1, Len(q) - 1) IN IF q[Len(q)] \in Range(p) THEN Dedupe(p) ELSE Append(Dedupe(p), q[Len(q)])
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
AddTo(q, v) == IF v \in Range(q) THEN q ELSE Append(q, v)
Union(a, b) == SortSet(Range(a) \cup Range(b))

Log(o) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, o @@ [id |-> id', list |-> list', ord |-> ord']) ELSE ops
Op(op, s) == [op |-> op, s |-> s, a |-> 0, b |-> 0, how |-> "", text |-> "", ok |-> TRUE, seq |-> <<>>, look |-> FALSE]
IdOp(o, i, v) == id' = [id EXCEPT ![i] = v] /\ UNCHANGED <<list, ord, fin>> /\ Log(o)
New(i, v, look) == IdOp([Op("New", i) EXCEPT !.a = v, !.look = look], i, v)
\* the number, in one of the forms a driver returns it in
Scan(i, v, how, look) == IdOp([Op("Scan", i) EXCEPT !.a = v, !.how = how, !.look = look], i, IF how = "nil" THEN 0 ELSE v)
ScanBad(i, how, look) == UNCHANGED <<id, list, ord, fin>> /\ Log([Op("ScanBad", i) EXCEPT !.how = how, !.ok = FALSE, !.look = look])
SetText(i, how, t, look) ==
  LET ok == t.v > 0 IN IdOp([Op("Set", i) EXCEPT !.how = how, !.text = t.t, !.ok = ok, !.look = look], i, IF ok THEN t.v ELSE IF how = "try" THEN 0 ELSE id[i])
Json(i, how, t, look) ==
  LET v == IF how = "quoted" /\ t.t = "" THEN 0 ELSE t.v IN IdOp([Op("Decode", i) EXCEPT !.how = how, !.text = t.t, !.ok = v >= 0, !.look = look], i, IF v >= 0 THEN v ELSE id[i])
Reset(i, look) == IdOp([Op("Reset", i) EXCEPT !.look = look], i, 0)
Copy(i, j, look) == IdOp([Op("Copy", i) EXCEPT !.a = j, !.look = look], i, id[j])
\* slot i becomes what decoding the encoded slot j gives
Round(i, j, how, look) == IdOp([Op("Round", i) EXCEPT !.a = j, !.how = how, !.ok = how # "text" \/ id[j] # 0, !.look = look], i, IF how = "text" /\ id[j] = 0 THEN id[i] ELSE id[j])
Take(i, l, k, look) == ord[l] /\ k <= Len(list[l]) /\ IdOp([Op("Take", i) EXCEPT !.a = l, !.b = k, !.look = look], i, list[l][k])

ListOp(o, l, q, r) == list' = [list EXCEPT ![l] = q] /\ ord' = [ord EXCEPT ![l] = r] /\ UNCHANGED <<id, fin>> /\ Log(o)
Make(l, how, q) == ListOp([Op("Make", l) EXCEPT !.how = how, !.seq = q], l, Dedupe(q), TRUE)
Assign(l, k) == ListOp([Op("Assign", l) EXCEPT !.a = k], l, list[k], ord[k])
\* shares the storage
Slice(l, k, m) == ord[k] /\ m <= Len(list[k]) /\ ListOp([Op("Slice", l) EXCEPT !.a = k, !.b = m], l, SubSeq(list[k], 1, m), TRUE)
Tail1(l, k) == ord[k] /\ Len(list[k]) > 0 /\ ListOp([Op("Tail", l) EXCEPT !.a = k], l, Tail(list[k]), TRUE)
Add(l, k, i) == id[i] # 0 /\ Len(list[k]) < MaxLen /\ ListOp([Op("Add", l) EXCEPT !.a = k, !.b = i], l, IF ord[k] THEN AddTo(list[k], id[i]) ELSE Union(list[k], <<id[i]>>), ord[k])
Concat(l, a, b) == ListOp([Op("Concat", l) EXCEPT !.a = a, !.b = b], l, Union(list[a], list[b]), Cardinality(Range(list[a]) \cup Range(list[b])) < 2)
\* a sorted copy
Sorted(l, k) == ListOp([Op("Sort", l) EXCEPT !.a = k], l, SortSet(Range(list[k])), TRUE)
RoundL(l, k, how) == ListOp([Op("RoundL", l) EXCEPT !.a = k, !.how = how], l, list[k], ord[k])
ScanL(l, how, q) == ListOp([Op("ScanL", l) EXCEPT !.how = how, !.seq = q], l, q, TRUE)
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
Num == 1..NN
IdStep == \E w \in {Draw(1..12)}, i \in {Draw(Slots)}, j \in {Draw(Slots)}, v \in {Draw(0..NN)}, L \in {Draw(BOOLEAN)}, l \in {Draw(Lists)}, k \in {Draw(1..MaxLen)} :
    CASE w = 1 -> New(i, v, L)
      [] w = 2 -> \E h \in {Draw({"int64", "uint64", "int", "uint", "nil"})} : Scan(i, v, h, L)
      [] w = 3 -> \E h \in {Draw({"string", "bytes", "float", "bool", "time"})} : ScanBad(i, h, L)
      [] w \in {4, 5} -> \E h \in {Draw({"set", "set", "parse", "try", "must"})}, t \in {Draw(Texts)} : SetText(i, h, t, L)
      [] w = 6 -> \E t \in {Draw(Texts)} : Json(i, "quoted", t, L)
      [] w = 7 -> \E t \in {Draw(JsonPlain)} : Json(i, "plain", t, L)
      [] w = 8 -> \E t \in {Draw(YamlTexts)} : Json(i, "yaml", t, L)
      [] w = 9 -> Reset(i, L)
      [] w = 10 -> Copy(i, j, L)
      [] w = 11 -> \E h \in {Draw({"text", "json", "jsonfield", "yaml", "value"})} : Round(i, j, h, L)
      [] w = 12 -> IF ord[l] /\ k <= Len(list[l]) THEN Take(i, l, k, L) ELSE New(i, v, L)
ListStep == \E w \in {Draw(1..12)}, l \in {Draw(Lists)}, a \in {Draw(Lists)}, b \in {Draw(Lists)}, i \in {Draw(Slots)}, k \in {Draw(0..MaxLen)}, z \in {Draw(0..5)} :
    CASE w = 1 -> \E h \in {Draw({"nums", "texts", "literal"})}, q \in {[x \in 1..z |-> Draw(Num)]} : Make(l, h, IF h = "literal" THEN Dedupe(q) ELSE q)
      [] w = 2 -> Assign(l, a)
      [] w \in {3, 4} -> IF ord[a] THEN Slice(l, a, IF k > Len(list[a]) THEN Len(list[a]) ELSE k) ELSE Sorted(l, a)
      [] w = 5 -> IF ord[a] /\ list[a] # <<>> THEN Tail1(l, a) ELSE Sorted(l, a)
      [] w \in {6, 7, 8} -> IF id[i] # 0 /\ Len(list[a]) < MaxLen THEN Add(l, a, i) ELSE Assign(l, a)
      [] w = 9 -> Concat(l, a, b)
      [] w = 10 -> Sorted(l, a)
      [] w = 11 -> \E h \in {Draw({"string", "bytes"})} : RoundL(l, a, h)
      [] w = 12 -> \E h \in {Draw({"string", "bytes", "nil", "null"})}, q \in {Dedupe([x \in 1..z |-> Draw(Num)])} : ScanL(l, h, IF h \in {"nil", "null"} THEN <<>> ELSE q)
WideStep == \E w \in {Draw(1..10)}, l \in {Draw(Lists)}, a \in {Draw(Lists)}, b \in {Draw(Lists)}, i \in {Draw(Slots)}, v \in {Draw(1..NN)}, k \in {Draw(0..MaxLen)}, z \in {Draw({0, 1, 5, 9, 17, 30, NN})}, h \in {Draw({"nums", "texts", "literal"})} :
    CASE w \in {1, 2} -> \E q \in {[x \in 1..z |-> Draw(Num)]} : Make(l, h, IF h = "literal" THEN Dedupe(q) ELSE q)
      [] w = 3 -> IF ord[a] THEN Slice(l, a, IF k > Len(list[a]) THEN Len(list[a]) ELSE k) ELSE Sorted(l, a)
      [] w = 4 -> New(i, v, FALSE)
      [] w = 5 -> IF id[i] # 0 THEN Add(l, a, i) ELSE Assign(l, a)
      [] w \in {6, 7, 8} -> Concat(l, a, b)
      [] w = 9 -> Sorted(l, a)
      [] w = 10 -> RoundL(l, a, "string")
Init == id = [i \in Slots |-> 0] /\ list = [l \in Lists |-> <<>>] /\ ord = [l \in Lists |-> TRUE] /\ ops = <<>> /\ n = 0 /\ fin = FALSE
EnumStep ==
  \/ \E i, j \in Slots, v \in {1, NN} : New(i, v, TRUE) \/ Copy(i, j, TRUE) \/ Reset(i, FALSE) \/ SetText(i, "set", Canon[2], FALSE) \/ Json(i, "quoted", Canon[3], FALSE)
  \/ \E l, a, b \in Lists : Slice(l, a, 1) \/ Add(l, a, 1) \/ Add(l, a, 2) \/ Concat(l, a, b) \/ Make(l, "nums", <<3, 1>>) \/ Assign(l, a)
Next == \/ ~fin /\ n < Depth /\ (IF Wide THEN WideStep ELSE IF Walk THEN \E w \in {Draw(BOOLEAN)} : IF w THEN IdStep ELSE ListStep ELSE EnumStep)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<id, list, ord, ops, n>>
Spec == Init /\ [][Next]_vars

NoDup == \A l \in Lists : ~Dup(list[l]) /\ Range(list[l]) \subseteq Num
SetLaws == \A a, b \in Lists : /\ Range(Union(list[a], list[b])) = Range(Union(list[b], list[a]))
                               /\ \A i \in Slots : id[i] # 0 => Range(AddTo(list[a], id[i])) = Range(list[a]) \cup {id[i]}
\* an operation changes its own slot only
Local == [][\E i \in Slots, l \in Lists : (\A j \in Slots \ {i} : id'[j] = id[j]) /\ (\A k \in Lists \ {l} : list'[k] = list[k])]_vars
=============================================================================
