---------------------------- MODULE BuilderImpl ----------------------------
(***************************************************************************)
(* How xsql keeps a statement: chunks over one append-only buffer and one  *)
(* flat argument list.  A chunk remembers how many arguments it has; where *)
(* new arguments go is found by summing up the chunks behind it.           *)
(* Checked: this structure always means the abstract statement of Builder. *)
(***************************************************************************)
EXTENDS Builder

VARIABLE im   \* slot -> [chunks, args, len] ; len: tokens in the buffer

ivars == <<st, cache, def, n, hist, done, im>>

Empty == [chunks |-> <<>>, args |-> <<>>, len |-> 0, pos |-> 0, nl |-> TRUE, row |-> "none"]

InsertAt(dest, src, k) == SubSeq(dest, 1, k) \o src \o SubSeq(dest, k + 1, Len(dest))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
ArgTail(ch, i) == Sum([k \in 1..(Len(ch) - i) |-> ch[i + k].argLen])   \* arguments behind chunk i
PosTok(x) == IF x = "" THEN <<>> ELSE <<x>>

\* addChunk: clause and expr are token sequences
AddChunk(s, p, clause, expr, args, sep) ==
  LET ch == s.chunks
      le == {i \in 1..Len(ch) : ch[i].pos <= p}
      i == IF le = {} THEN 0 ELSE CHOOSE x \in le : \A y \in le : y <= x   \* the last one not behind p
      same == i > 0 /\ ch[i].pos = p
      tail == ArgTail(ch, i)
  IN IF same /\ expr = <<>>
     THEN IF args = <<>> THEN [s EXCEPT !.pos = p]
          ELSE \* replace the arguments of the clause: in the first chunk at this position
               LET j == CHOOSE x \in 1..i : ch[x].pos = p /\ (x = 1 \/ ch[x - 1].pos # p)
                   at == Len(s.args) - ArgTail(ch, j) - ch[j].argLen
               IN [s EXCEPT !.pos = p, !.args = SubSeq(@, 1, at) \o args \o SubSeq(@, at + Len(args) + 1, Len(@))]
     ELSE LET sp == IF same THEN (IF ch[i].hasExpr THEN PosTok(sep) ELSE <<" ">>) ELSE <<>>
              extend == same /\ ch[i].hi = s.len
              head == IF ~same /\ clause # <<>>
                      THEN (IF s.nl THEN <<"\n">> ELSE <<>>) \o clause \o (IF expr # <<>> THEN <<" ">> ELSE <<>>)
                      ELSE <<>>
              body == sp \o head \o expr
              hi == s.len + Len(body)
              c == [pos |-> p, toks |-> body, argLen |-> Len(args), hasExpr |-> expr # <<>>, hi |-> hi]
              e == [pos |-> p, toks |-> ch[i].toks \o body, argLen |-> ch[i].argLen + Len(args), hasExpr |-> TRUE, hi |-> hi]
          IN [s EXCEPT !.pos = p,
                       !.chunks = IF extend THEN [ch EXCEPT ![i] = e] ELSE SubSeq(ch, 1, i) \o <<c>> \o SubSeq(ch, i + 1, Len(ch)),
                       !.args = InsertAt(@, args, Len(@) - tail),
                       !.len = hi]

RawI(s) == LET t == Cat([i \in 1..Len(s.chunks) |->
                (IF i > 1 /\ s.chunks[i].pos > s.chunks[i-1].pos THEN <<" ">> ELSE <<>>) \o s.chunks[i].toks])
           IN IF t # <<>> /\ t[1] = "\n" THEN Tail(t) ELSE t

HasI(s, p) == \E i \in 1..Len(s.chunks) : s.chunks[i].pos = p
LastI(s) == s.chunks[Len(s.chunks)].pos
SetColI(s, c, v) ==
  IF HasI(s, Pos("Insert"))
  THEN AddChunk(AddChunk(s, Pos("InsertFields"), <<>>, c.toks, <<>>, ", "), Pos("Values"), <<>>, v.toks, v.args, ", ")
  ELSE IF HasI(s, Pos("Update")) THEN AddChunk(s, Pos("Set"), <<"SET">>, c.toks \o <<"=">> \o v.toks, v.args, ", ")
  ELSE s
RowSetI(s, c, v) ==
  IF s.row = "first"
  THEN AddChunk(AddChunk(s, Pos("InsertFields"), <<>>, c.toks, <<>>, ", "), Pos("Values"), <<>>, v.toks, v.args, ", ")
  ELSE [AddChunk(s, Pos("Values"), <<>>, v.toks, v.args, IF s.row = "next" THEN "" ELSE ", ") EXCEPT !.row = "more"]
InsertIntoI(s, f) ==
  [AddChunk(AddChunk(AddChunk(AddChunk(s, Pos("Insert"), <<"INSERT INTO">>, f.toks, <<>>, ", "),
     Pos("InsertFields") - 1, <<"(">>, <<>>, <<>>, ""), Pos("Values") - 1, <<") VALUES (">>, <<>>, <<>>, ""),
     Pos("Values") + 1, <<")">>, <<>>, <<>>, "") EXCEPT !.pos = Pos("InsertFields")]
LimitI(s, a) == AddChunk(s, Pos("Limit"), <<"LIMIT ", "?">>, <<>>, <<a>>, "")
OffsetI(s, a) == AddChunk(s, Pos("Offset"), <<"OFFSET ", "?">>, <<>>, <<a>>, "")

ApplyI(s, o) ==
  LET f == IF "k" \in DOMAIN o THEN Frag1(o) ELSE Lit("")
      std(c, h, sep) == AddChunk(s, Pos(c), <<h>>, f.toks, f.args, sep)
      set == [toks |-> <<"?">>, args |-> <<"a" \o ToString(o.m)>>]
      col == Frag("plain", o.m, "c")
  IN
  CASE o.op = "Select"   -> std("Select", "SELECT", ", ")
    [] o.op = "From"     -> std("From", "FROM", ", ")
    [] o.op = "Where"    -> std("Where", "WHERE", " AND ")
    [] o.op = "Having"   -> std("Having", "HAVING", " AND ")
    [] o.op = "GroupBy"  -> std("GroupBy", "GROUP BY", ", ")
    [] o.op = "OrderBy"  -> std("OrderBy", "ORDER BY", ", ")
    [] o.op = "Returning" -> std("Returning", "RETURNING", ", ")
    [] o.op = "Update"   -> std("Update", "UPDATE", ", ")
    [] o.op = "DeleteFrom" -> std("Delete", "DELETE FROM", ", ")
    [] o.op = "InsertInto" -> InsertIntoI(s, f)
    [] o.op = "Set"      -> SetColI(s, col, set)
    [] o.op = "SetExpr"  -> SetColI(s, col, f)
    [] o.op = "NewRow"   -> IF HasI(s, Pos("Values"))
                            THEN [AddChunk(s, Pos("Values"), <<>>, <<" ">>, <<>>, " ), (") EXCEPT !.row = "next"]
                            ELSE [s EXCEPT !.row = "first"]
    [] o.op = "RowSet"   -> RowSetI(s, col, set)
    [] o.op = "RowSetExpr" -> RowSetI(s, col, f)
    [] o.op = "In"       -> LET k == o.cnt IN AddChunk(s, Pos("Where"), <<>>,
                              <<"IN (">> \o Cat([i \in 1..k |-> IF i < k THEN <<"?", ",">> ELSE <<"?">>]) \o <<")">>,
                              [i \in 1..k |-> "a" \o ToString(o.m) \o "i" \o ToString(i)], " ")
    [] o.op = "Join"     -> AddChunk(s, Pos("From"), <<>>, <<o.kind \o " t" \o ToString(o.m) \o " ON (c" \o ToString(o.m) \o ")">>, <<>>, " ")
    [] o.op = "Limit"    -> LimitI(s, "a" \o ToString(o.m))
    [] o.op = "Offset"   -> OffsetI(s, "a" \o ToString(o.m))
    [] o.op = "Expr"     -> AddChunk(s, s.pos, <<>>, f.toks, f.args, ", ")
    [] o.op = "Clause"   -> AddChunk(s, IF s.chunks = <<>> THEN Pos("Start") ELSE LastI(s) + 10, f.toks, <<>>, f.args, ", ")
StartI(o) == IF o.how = "New" THEN AddChunk(Empty, Pos("Select"), Frag1(o).toks, <<>>, Frag1(o).args, ", ")
             ELSE ApplyI(Empty, [o EXCEPT !.op = o.how])

EmbedI(s, pre, suf, q) ==
  AddChunk(s, s.pos, <<>>, pre \o RawI(q) \o suf, q.args, IF s.pos \in {Pos("Where"), Pos("Having")} THEN " AND " ELSE ", ")
UnionI(s, all, q) ==
  LET p == IF s.chunks # <<>> /\ LastI(s) >= Pos("Union") THEN LastI(s) + 1 ELSE Pos("Union")
      t == AddChunk(s, p, <<IF all THEN "UNION ALL " ELSE "UNION ">>, <<>>, q.args, "")
      i == CHOOSE x \in 1..Len(t.chunks) : t.chunks[x].pos = p
  IN [t EXCEPT !.chunks[i].toks = @ \o RawI(q), !.chunks[i].hi = t.len + Len(RawI(q)), !.len = @ + Len(RawI(q))]

InitI == Init /\ im = [i \in Slot |-> Empty]
CreateI == \E i \in Free : \E o \in Creators :
  LET r == o @@ [m |-> n] IN st' = [st EXCEPT ![i] = Start(r)] /\ im' = [im EXCEPT ![i] = StartI(r)]
CallI == \E i \in Live : \E o \in Calls(i) :
  LET r == o @@ [m |-> n] IN st' = [st EXCEPT ![i] = Apply(st[i], r)] /\ im' = [im EXCEPT ![i] = ApplyI(im[i], r)]
EmbedingI == \E i \in Live : \E j \in Live \ {i} : \E how \in Ops \cap {"SubQuery", "Bare", "Union", "With"} :
  LET t == Raw(st[j]) a == Args(st[j]) pre == "p" \o ToString(n) IN
  /\ st' = [st EXCEPT ![j] = Dead, ![i] =
       CASE how = "SubQuery" -> Embed(st[i], pre \o " IN (", ")", t, a)
         [] how = "Bare"     -> Embed(st[i], "", "", t, a)
         [] how = "With"     -> Embed(HeadOnce(st[i], Pos("With"), <<"WITH">>), pre \o " AS (", ")", t, a)
         [] how = "Union"    -> Union(st[i], FALSE, t, a)]
  /\ im' = [im EXCEPT ![j] = Empty, ![i] =
       CASE how = "SubQuery" -> EmbedI(im[i], <<pre \o " IN (">>, <<")">>, im[j])
         [] how = "Bare"     -> EmbedI(im[i], <<>>, <<>>, im[j])
         [] how = "With"     -> EmbedI(AddChunk(im[i], Pos("With"), <<"WITH">>, <<>>, <<>>, ""), <<pre \o " AS (">>, <<")">>, im[j])
         [] how = "Union"    -> UnionI(im[i], FALSE, im[j])]
NextI == /\ n <= Depth /\ n' = n + 1 /\ UNCHANGED <<cache, def, hist, done>>
         /\ (CreateI \/ CallI \/ EmbedingI)
SpecI == InitI /\ [][NextI]_ivars

Refines == \A i \in Live : RawI(im[i]) = Raw(st[i]) /\ im[i].args = Args(st[i]) /\ im[i].pos = st[i].cur
Adds == \A i \in Live : Sum([k \in 1..Len(im[i].chunks) |-> im[i].chunks[k].argLen]) = Len(im[i].args)
SortedI == \A i \in Live : \A a, b \in 1..Len(im[i].chunks) : a < b => im[i].chunks[a].pos <= im[i].chunks[b].pos
=============================================================================
