------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* A query parameters object.  What it means (set) is a function of the    *)
(* settings made since the last reset; the name is memoised (memo), and    *)
(* MemoFresh states that the memo is never stale.  A setting that would    *)
(* come after the page arguments, or a position out of range, is refused   *)
(* and changes nothing.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Queries, Positions, EnumPositions, EnumValues, FlagSets, NullSets, Limits, Offsets,
          MaxArgs,   \* arguments are numbered in the order they are given
          Depth, Record, Walk

VARIABLES set, memo, narg, ops, fin
vars == <<set, memo, narg, ops, fin>>

FlagsSmall == {<<>>, <<1>>, <<1, 2>>}
NullsSmall == {<<>>, <<"a">>, <<"b", "a">>}
FlagsBig == {<<>>, <<0>>, <<1>>, <<2, 1>>, <<1, 2>>, <<12>>, <<-1>>, <<1, 1>>, <<16, 2147483647>>}
NullsBig == {<<>>, <<"a">>, <<"b", "a">>, <<"a", "b">>, <<"c", "a", "b">>, <<"note">>, <<"note", "id">>, <<"zz">>}
EnumsBig == {0, 1, 8, 17, 2147483647, -1}
Default == 500
Empty(q) == [query |-> q, pos |-> {}, enums |-> <<>>, args |-> <<>>, flags |-> <<>>, nulls |-> <<>>,
             limit |-> 0, offset |-> 0, cursor |-> 0]
\* what shapes the SQL
Shape(s) == [query |-> s.query, pos |-> s.pos, enums |-> {<<s.enums[i].pos, s.enums[i].val>> : i \in 1..Len(s.enums)},
             flags |-> {s.flags[i] : i \in 1..Len(s.flags)}, nulls |-> {s.nulls[i] : i \in 1..Len(s.nulls)},
             paging |-> IF s.cursor > 0 THEN "cursor" ELSE IF s.offset > 0 THEN "offset" ELSE IF s.limit > 0 THEN "first" ELSE "none"]

Paged == set.limit > 0
SetLimit(l) == IF l = 0 THEN Default ELSE l
WithEnum(es, p, v) ==
  IF \E i \in 1..Len(es) : es[i].pos = p
  THEN [i \in 1..Len(es) |-> IF es[i].pos = p THEN [pos |-> p, val |-> v] ELSE es[i]]
  ELSE Append(es, [pos |-> p, val |-> v])

Refused(o) ==
  CASE o.op = "Set" -> o.pos > 63 \/ Paged
    [] o.op = "SetEnum" -> o.pos > 63 \/ Paged
    [] o.op = "SetPage" -> Paged
    [] o.op = "SetCursor" -> o.pos > 63 \/ Paged
    [] o.op = "AddArgs" -> Paged
    [] OTHER -> FALSE
After(s, o) ==
  CASE o.op = "Set" -> [s EXCEPT !.pos = @ \cup {o.pos}, !.args = Append(@, narg + 1)]
    [] o.op = "SetEnum" -> [s EXCEPT !.pos = @ \cup {o.pos}, !.enums = WithEnum(@, o.pos, o.val)]
    [] o.op = "SetFlags" -> [s EXCEPT !.flags = o.flags]
    [] o.op = "SetNulls" -> [s EXCEPT !.nulls = o.nulls]
    [] o.op = "SetPage" -> [s EXCEPT !.limit = SetLimit(o.limit), !.offset = o.offset, !.args = @ \o <<0 - SetLimit(o.limit), 0 - o.offset>>]
    [] o.op = "SetCursor" -> [s EXCEPT !.pos = @ \cup {o.pos}, !.cursor = narg + 1, !.limit = SetLimit(o.limit),
                                       !.args = @ \o <<narg + 1, 0 - SetLimit(o.limit)>>]
    [] o.op = "AddArgs" -> [s EXCEPT !.args = @ \o [i \in 1..o.n |-> narg + i]]
    [] o.op = "Reset" -> Empty(s.query)
    [] OTHER -> s
Uses(o) == CASE o.op \in {"Set", "SetCursor"} -> 1 [] o.op = "AddArgs" -> o.n [] OTHER -> 0

Ops == [op : {"Set"}, pos : Positions] \cup [op : {"SetEnum"}, pos : EnumPositions, val : EnumValues]
       \cup [op : {"SetFlags"}, flags : FlagSets] \cup [op : {"SetNulls"}, nulls : NullSets]
       \cup [op : {"SetPage"}, limit : Limits, offset : Offsets] \cup [op : {"SetCursor"}, limit : Limits, pos : Positions]
       \cup [op : {"AddArgs"}, n : 1..2] \cup {[op |-> "Reset"], [op |-> "Name"], [op |-> "Look"]}
\* a walk draws the kind of call first, so that the large domains do not crowd out the others
Kinds == {"Set", "SetEnum", "SetFlags", "SetNulls", "SetPage", "SetCursor", "AddArgs", "Reset", "Name", "Look"}
Drawn == LET w == RandomElement({x \in 1..14 : x # 0 - Len(ops)})
             k == CASE w \in {1, 2} -> "Set" [] w \in {3, 4} -> "SetEnum" [] w = 5 -> "SetFlags" [] w = 6 -> "SetNulls"
                    [] w = 7 -> "SetPage" [] w = 8 -> "SetCursor" [] w \in {9} -> "AddArgs" [] w = 10 -> "Reset"
                    [] w \in {11, 12} -> "Name" [] OTHER -> "Look"
         IN {RandomElement({o \in Ops : o.op = k})}

Init == /\ \E q \in Queries : set = Empty(q)
        /\ memo = <<>> /\ narg = 0 /\ ops = <<>> /\ fin = FALSE
\* the memo holds the shape the name was made of, or none
Step(o) ==
  /\ narg + Uses(o) <= MaxArgs
  /\ LET r == Refused(o)
         s == IF r THEN set ELSE After(set, o)
     IN /\ set' = s
        /\ narg' = narg + Uses(o)
        /\ memo' = CASE o.op \in {"Name", "Look"} -> <<Shape(set)>>
                     [] o.op = "AddArgs" \/ r -> memo   \* does not change the name
                     [] OTHER -> <<>>
        /\ ops' = IF Record THEN Append(ops, [o |-> o, refused |-> r, s |-> s, shape |-> Shape(s)]) ELSE ops
        /\ UNCHANGED fin
Next == \/ ~fin /\ (Record => Len(ops) < Depth) /\ \E o \in (IF Walk THEN Drawn ELSE Ops) : Step(o)
        \/ /\ Record /\ ~fin /\ Len(ops) = Depth /\ fin' = TRUE
           /\ PrintT("BEH " \o ToJson(<<[query |-> set.query]>> \o ops)) /\ UNCHANGED <<set, memo, narg, ops>>
Spec == Init /\ [][Next]_vars

MemoFresh == memo # <<>> => memo = <<Shape(set)>>
\* cursor, limit and offset come last, after every other argument
PageLast == Paged => LET n == Len(set.args) IN
              IF set.cursor > 0 THEN set.args[n] = 0 - set.limit /\ set.args[n-1] = set.cursor
              ELSE set.args[n-1] = 0 - set.limit /\ set.args[n] = 0 - set.offset
InOrder == \A i, j \in 1..Len(set.args) : i < j /\ set.args[i] > 0 /\ set.args[j] > 0 => set.args[i] < set.args[j]
OnePage == Paged => Cardinality({i \in 1..Len(set.args) : set.args[i] <= 0}) = (IF set.cursor > 0 THEN 1 ELSE 2)
=============================================================================
