------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Nullable values and what a driver may return for them.  A value is an   *)
(* index into its type's values, 0 for the zero value; an integer is an    *)
(* index into the landmarks below, so that order is the order of numbers:  *)
(*   -4 -2^63   -3 -2^31-1   -2 -2^31   -1 -1   0 0   1 1   2 2^31-1       *)
(*   3 2^31   4 2^32-1   5 2^32   6 2^53+1   7 2^63-1   8 2^63             *)
(*   9 2^64-2^31-1   10 2^64-2^31   11 2^64-1                              *)
(* A number of 2^63 or more is stored as the number 2^64 below it.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Walk, Record

VARIABLES val, cell, ops, n, fin
vars == <<val, cell, ops, n, fin>>

IntTypes == {"Int64", "Int32", "ID", "ID32"}
OtherTypes == {"Float", "Bool", "NULLString", "UUID", "Time", "Strings", "Metadata", "KVSet", "IDArray"}
Types == IntTypes \cup OtherTypes
Slots == {1, 2}
Unknown == -99
Null == -50
Signed == -4..7
Unsigned == 0..11
Lo(t) == CASE t = "Int64" -> -4 [] t = "Int32" -> -2 [] t \in {"ID", "ID32"} -> 0
Hi(t) == CASE t = "Int64" -> 7 [] t = "Int32" -> 2 [] t = "ID" -> 11 [] t = "ID32" -> 4
Wrap(m) == IF m >= 8 THEN m - 12 ELSE m
Unwrap(m) == IF m < 0 THEN m + 12 ELSE m
\* Float: 1..9 fractions and special values, 100+m the integer landmark m
Exact == {-4, -3, -2, -1, 1, 2, 3, 4, 5, 8, 10}
Single == {1, 2, 8}
FloatVals == 0..9 \cup {100 + m : m \in Exact}
\* Time: 1 a day, 2 and 3 a second, 4 a millisecond, 5 a nanosecond, 6 before 1970, 7 a tenth of a
\* millisecond; 5 and 7 are in the millisecond of 4
Prec(v) == CASE v \in {0, 1} -> 1 [] v \in {2, 3} -> 2 [] v \in {4, 6} -> 3 [] v \in {5, 7} -> 4
TextPrec == [date |-> 1, datetime |-> 2, rfc3339 |-> 2, rfc3339off |-> 2, rfc3339ms |-> 3, rfc3339msoff |-> 3, nano |-> 4, nanooff |-> 4]
Vals(t) == CASE t \in IntTypes -> Lo(t)..Hi(t)
             [] t = "Float" -> FloatVals
             [] t = "Bool" -> {0, 1}
             [] t = "NULLString" -> 0..11
             [] t = "UUID" -> 0..4
             [] t = "Time" -> 0..7
             [] t \in {"Strings", "Metadata", "KVSet", "IDArray"} -> 0..5
Lists == {"Strings", "Metadata", "KVSet", "IDArray"}
NBad(t) == CASE t = "Float" -> 7 [] t = "UUID" -> 6 [] t = "Time" -> 8 [] t \in Lists -> 8 [] OTHER -> 0

\* what a driver may hand over, for each type: [r: representation, x: content]
RX(r, S) == {[r |-> r, x |-> x] : x \in S}
Ints == RX("int64", Signed) \cup RX("int", Signed) \cup RX("uint64", Unsigned) \cup RX("uint", Unsigned)
Inputs(t) == RX("null", {0}) \cup
  CASE t \in IntTypes -> Ints \cup RX("bool", {0, 1}) \cup RX("float64", {1, 2}) \cup RX("time", {4}) \cup RX("word", {1, 2})
    [] t = "Float" -> RX("float64", FloatVals) \cup RX("float32", Single \cup {0, 101, 103}) \cup RX("numeric", FloatVals) \cup RX("numericexp", FloatVals)
                      \cup {i \in Ints : i.x \in Exact \cup {0}} \cup RX("bad", 1..NBad(t)) \cup RX("word", {1, 2}) \cup RX("time", {4})
    [] t = "Bool" -> RX("bool", {0, 1}) \cup {i \in Ints : i.x >= 0} \cup RX("word", {1, 2}) \cup RX("time", {4})
    [] t = "NULLString" -> RX("string", Vals(t)) \cup RX("bytes", Vals(t))
    [] t = "UUID" -> RX("string", Vals(t) \ {0}) \cup RX("bytes", Vals(t) \ {0}) \cup RX("guid", Vals(t) \ {0}) \cup RX("bad", 1..NBad(t)) \cup RX("int64", {5}) \cup RX("time", {4})
    [] t = "Time" -> RX("time", Vals(t)) \cup RX("zoned", Vals(t) \ {0}) \cup UNION {RX(f, {v \in Vals(t) \ {0} : Prec(v) <= TextPrec[f]}) : f \in DOMAIN TextPrec} \cup RX("bad", 1..NBad(t)) \cup RX("int64", {5})
    [] t \in Lists -> RX("string", Vals(t)) \cup RX("bytes", Vals(t)) \cup RX("bad", 1..NBad(t)) \cup RX("badbytes", 1..NBad(t)) \cup RX("int64", {5}) \cup RX("time", {4})

\* the values it may be read as and whether it may be refused
Yes(v) == [vs |-> {v}, err |-> "never"]
No == [vs |-> {}, err |-> "always"]
Result(t, i) ==
  CASE i.r = "null" -> Yes(0)
    [] i.r \in {"bad", "badbytes", "word"} -> No
    [] i.r \in {"int64", "int", "uint64", "uint"} /\ t \in IntTypes ->
         IF t = "ID" THEN Yes(IF i.x < 0 THEN Unwrap(i.x) ELSE i.x)
         ELSE IF Lo(t) <= i.x /\ i.x <= Hi(t) THEN Yes(i.x) ELSE No
    [] i.r \in {"int64", "int", "uint64", "uint"} /\ t = "Float" -> Yes(IF i.x = 0 THEN 0 ELSE 100 + i.x)
    [] i.r \in {"int64", "int", "uint64", "uint"} /\ t = "Bool" -> Yes(IF i.x > 0 THEN 1 ELSE 0)
    [] i.r = "int64" -> No
    [] i.r = "bool" /\ t \in IntTypes -> [vs |-> {i.x}, err |-> "may"]
    [] i.r = "float64" /\ t \in IntTypes -> No
    [] i.r = "time" /\ t # "Time" -> No
    \* the same UUID, in either case
    [] i.r = "guid" -> [vs |-> IF i.x \in {1, 2} THEN {1, 2} ELSE {i.x}, err |-> "never"]
    \* text is read to the millisecond
    [] i.r \in {"nano", "nanooff"} /\ i.x \in {5, 7} -> [vs |-> {4, i.x}, err |-> "never"]
    [] OTHER -> Yes(i.x)
Definite(r, old) == IF r.err = "never" /\ Cardinality(r.vs) = 1 THEN CHOOSE v \in r.vs : TRUE ELSE Unknown

Log(o) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, o @@ [after |-> val'[o.t], cell |-> cell']) ELSE ops
Op(op, t, i) == [op |-> op, t |-> t, i |-> i, j |-> i, r |-> "", x |-> 0, vs |-> {}, err |-> "never"]
Put(o, v) == val' = [val EXCEPT ![o.t][o.i] = v] /\ UNCHANGED <<cell, fin>> /\ Log(o)
Set(t, i, v) == Put([Op("Set", t, i) EXCEPT !.x = v, !.vs = {v}], v)
Scan(t, i, in) == LET r == Result(t, in) IN Put([Op("Scan", t, i) EXCEPT !.r = in.r, !.x = in.x, !.vs = r.vs, !.err = r.err], Definite(r, val[t][i]))
\* stored value of slot j read into slot i: as it is, as text or bytes, or through a table
Round(t, i, j, how) == val[t][j] # Unknown /\ Put([Op("Round", t, i) EXCEPT !.j = j, !.r = how, !.vs = {val[t][j]}], val[t][j])
Hows(t) == CASE t \in Lists \cup {"NULLString", "UUID"} -> {"value", "bytes", "table"} [] OTHER -> {"value", "table"}
\* text that the stored form cannot represent is refused
StoreBad(t, x) == UNCHANGED <<val, cell, fin>> /\ Log([Op("StoreBad", t, 1) EXCEPT !.x = x, !.err = "always"])
TextLists == Lists \ {"IDArray"}
\* an integer cell of a table, written as one type and read as another
Write(t, i) == val[t][i] # Unknown /\ cell' = (IF val[t][i] = 0 THEN Null ELSE Wrap(val[t][i])) /\ UNCHANGED <<val, fin>> /\ Log([Op("Write", t, i) EXCEPT !.vs = {val[t][i]}])
Read(t, i) == LET r == IF cell = Null THEN Yes(0) ELSE Result(t, [r |-> "int64", x |-> cell]) IN Put([Op("Read", t, i) EXCEPT !.vs = r.vs, !.err = r.err], Definite(r, val[t][i]))
\* JSON: the value, and a number that may be out of range
JsonTypes == IntTypes \cup {"Bool", "Time"}
Json(t, i, j) == val[t][j] # Unknown /\ Put([Op("Json", t, i) EXCEPT !.j = j, !.vs = {val[t][j]}], val[t][j])
JsonNum(t, i, x, quoted) == LET r == IF Lo(t) <= x /\ x <= Hi(t) THEN Yes(x) ELSE No 
  e == IF quoted /\ r.err = "never" THEN "may" ELSE r.err IN
  Put([Op("JsonNum", t, i) EXCEPT !.x = x, !.r = IF quoted THEN "quoted" ELSE "plain", !.vs = r.vs, !.err = e], Definite([r EXCEPT !.err = e], 0))
\* a text for no value: empty, NULL or zero
ZeroTypes == IntTypes \cup {"Bool", "Float"}
JsonZero(t, i, x) == LET r == [Yes(0) EXCEPT !.err = IF t = "ID" /\ x = 2 THEN "may" ELSE "never"] IN
  Put([Op("JsonZero", t, i) EXCEPT !.x = x, !.vs = r.vs, !.err = r.err], Definite(r, 0))

\* a JSON number that is a float, and a text that is no value of the type
JsonVals == FloatVals \ {8, 9}
JsonFloat(i, x, form) == Put([Op("JsonFloat", "Float", i) EXCEPT !.x = x, !.r = form, !.vs = {x}, !.err = IF form = "quoted" THEN "may" ELSE "never"],
                             IF form = "quoted" THEN Unknown ELSE x)
StrictTypes == IntTypes \cup {"Float", "Time"}
JsonBad(t, i, x) == Put([Op("JsonBad", t, i) EXCEPT !.x = x, !.err = "always"], Unknown)

Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
Step == \E w \in {Draw(1..16)}, t \in {Draw(Types)}, u \in {Draw(IntTypes)}, i \in {Draw(Slots)}, j \in {Draw(Slots)}, q \in {Draw(BOOLEAN)} :
  \E v \in {Draw(Vals(t))}, in \in {Draw(Inputs(t))}, int \in {Draw(Inputs(u))}, h \in {Draw(Hows(t))}, m \in {Draw(-4..11)}, a \in {Draw(Vals(u))}, jt \in {Draw(JsonTypes)} :
    CASE w \in 1..3 -> Scan(t, i, in)
      [] w = 4 -> Scan(u, i, int)
      [] w = 5 -> Set(t, i, v)
      [] w \in {6, 7} -> IF val[t][j] # Unknown THEN Round(t, i, j, h) ELSE Set(t, i, v)
      [] w = 8 -> IF val[u][i] # Unknown THEN Write(u, i) ELSE Set(u, i, a)
      [] w = 9 -> Read(u, i)
      [] w = 10 -> Set(u, i, a)
      [] w = 11 -> IF val[jt][j] # Unknown THEN Json(jt, i, j) ELSE Scan(t, i, in)
      [] w = 13 -> \E l \in {Draw(TextLists)}, y \in {Draw(1..4)} : StoreBad(l, y)
      [] w = 12 -> JsonNum(u, i, m, q)
      [] w = 15 -> \E x \in {Draw(JsonVals)}, f \in {Draw({"plain", "exp", "quoted"})} : JsonFloat(i, x, f)
      [] w = 16 -> \E z \in {Draw(StrictTypes)}, y \in {Draw(1..4)} : JsonBad(z, i, y)
      [] w = 14 -> \E z \in {Draw(ZeroTypes)}, y \in {Draw(1..4)} : JsonZero(z, i, y)
\* every type: any value, then any input or way of reading back
EnumStep == \/ n = 0 /\ \E t \in Types : \E v \in Vals(t) : Set(t, 1, v)
            \/ n = 1 /\ \E t \in TextLists, y \in 1..4 : val[t][1] # 0 /\ StoreBad(t, y)
            \/ n = 1 /\ \E t \in Types : val[t][1] # Unknown /\ (t = "Bool" \/ val[t][1] # 0) /\
                 (\/ \E in \in Inputs(t) : Scan(t, 1, in)
                  \/ \E h \in Hows(t) : Round(t, 1, 1, h) \/ Round(t, 2, 1, h)
                  \/ t \in JsonTypes /\ (Json(t, 1, 1) \/ Json(t, 2, 1))
                  \/ t = "Float" /\ \E x \in JsonVals, f \in {"plain", "exp", "quoted"} : JsonFloat(1, x, f)
                  \/ t \in StrictTypes /\ \E x \in 1..4 : JsonBad(t, 1, x)
                  \/ t \in ZeroTypes /\ \E x \in 1..4 : JsonZero(t, 1, x)
                  \/ t \in IntTypes /\ \E x \in -4..11, q \in BOOLEAN : JsonNum(t, 1, x, q))
Init == val = [t \in Types |-> [s \in Slots |-> 0]] /\ cell = Null /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Step ELSE EnumStep)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<val, cell, ops, n>>
Spec == Init /\ [][Next]_vars

\* ---- design: storing and reading is the identity, NULL is zero and only zero
Stored(t, v) == IF v = 0 THEN [r |-> "null", x |-> 0]
                ELSE CASE t \in IntTypes -> [r |-> "int64", x |-> Wrap(v)] [] t = "Float" -> [r |-> "float64", x |-> v] [] t = "Bool" -> [r |-> "bool", x |-> v]
                       [] t = "Time" -> [r |-> "time", x |-> v] [] OTHER -> [r |-> "string", x |-> v]
RoundTrip == \A t \in Types : \A v \in Vals(t) : Stored(t, v) \in Inputs(t) /\ Result(t, Stored(t, v)) = Yes(v)
Injective == \A t \in Types : \A v, w \in Vals(t) : Stored(t, v) = Stored(t, w) => v = w
InType == \A t \in Types : \A in \in Inputs(t) : Result(t, in).vs \subseteq Vals(t) /\ (Result(t, in).vs = {} <=> Result(t, in).err = "always")
\* an integer is read as itself, except that an ID undoes the wrapping
IntExact == \A t \in IntTypes : \A in \in Ints : \A v \in Result(t, in).vs : v = in.x \/ (t = "ID" /\ in.x < 0 /\ Wrap(v) = in.x)
ASSUME RoundTrip /\ Injective /\ InType /\ IntExact
TypeOK == \A t \in Types, i \in Slots : val[t][i] \in Vals(t) \cup {Unknown}
=============================================================================
