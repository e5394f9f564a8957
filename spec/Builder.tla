------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The SQL statement builder (package xsql), as its users see it.          *)
(*                                                                         *)
(* A statement is a list of clauses in SQL order; a clause has a head and  *)
(* items; an item is a text (tokens) with the arguments given with it and  *)
(* the separator that precedes it.  The rendered text, the argument list,  *)
(* the scan destinations and the name are functions of that state, plus    *)
(* one cache per dialect for named statements.                             *)
(*                                                                         *)
(* Tokens: "?" is a placeholder, "\\?" an escaped question mark, "\n" a    *)
(* line break, anything else literal text.  Fragments and arguments are    *)
(* named after the step that introduced them, so all are different.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,     \* number of statements alive at the same time
          Depth,     \* calls per behaviour
          Ops,       \* enabled calls
          Frags,     \* kinds of fragments
          Dialects,  \* dialects of new statements
          Names,     \* statement names
          Random,    \* TRUE: draw parameters instead of branching over them
          Record     \* TRUE: print behaviours

VARIABLES st,     \* slot -> statement (or Dead)
          cache,  \* dialect -> name -> tokens
          def,    \* dialect the functions of the package use, and which dialects begin clauses on new lines
          n, hist, done

vars == <<st, cache, def, n, hist, done>>

\* the reference to n keeps TLC from evaluating a draw only once
Pick(S) == IF Random /\ S # {} /\ n >= 0 THEN {RandomElement(S)} ELSE S
Slot == 1..Slots

------------------------------------------------------------- (* positions *)
Order == <<"Start", "With", "Insert", "InsertFields", "Values", "Delete", "Update", "Set", "Select", "Into",
           "From", "Where", "GroupBy", "Having", "Union", "OrderBy", "Limit", "Offset", "Returning">>
Pos(c) == 1000 * (CHOOSE i \in 1..Len(Order) : Order[i] = c)

------------------------------------------------------------- (* fragments *)
\* text and arguments of fragment kind k introduced at step m (and part p of it)
Tag(m, p) == ToString(m) \o p
Frag(k, m, p) ==
  LET f == "f" \o Tag(m, p)
      a == "a" \o Tag(m, p)
  IN CASE k = "plain"  -> [toks |-> <<f>>, args |-> <<>>]
       [] k = "one"    -> [toks |-> <<f \o "=", "?">>, args |-> <<a>>]
       [] k = "two"    -> [toks |-> <<f \o "(", "?", ", ", "?", ")">>, args |-> <<a \o "x", a \o "y">>]
       [] k = "adj"    -> [toks |-> <<"?", "?", f>>, args |-> <<a \o "x", a \o "y">>]
       [] k = "esc"    -> [toks |-> <<f, "\\?", "g">>, args |-> <<>>]
       [] k = "esc1"   -> [toks |-> <<f, "\\?", "\\?", "?", "\\?">>, args |-> <<a>>]
       [] k = "back"   -> [toks |-> <<f \o " ~ '\\d\\\\' ", "?">>, args |-> <<a>>]
       [] k = "multi"  -> [toks |-> <<f \o "->'", "?", "'@@">>, args |-> <<a>>]   \* the harness widens @@ to non-ASCII text
       [] k = "x"      -> [toks |-> <<"x">>, args |-> <<>>]     \* the same text wherever it is used
       [] k = "cx"     -> [toks |-> <<"cx">>, args |-> <<>>]
       [] k = "xx"     -> [toks |-> <<"x x">>, args |-> <<>>]
       [] k = "xq"     -> [toks |-> <<"x", "?">>, args |-> <<a>>]
       [] k = "xe"     -> [toks |-> <<"x", "\\?">>, args |-> <<>>]
       [] k = "space"  -> [toks |-> <<f \o "  +\t", "?", "\n  x">>, args |-> <<a>>]

------------------------------------------------------------ (* statements *)
Dead == [live |-> FALSE]
NewStmt(d) == [live |-> TRUE, dialect |-> d, clauses |-> <<>>, cur |-> 0, dest |-> <<>>, name |-> "",
               memo |-> <<>>, nl |-> def.nl[d], row |-> "none"]

Last(s) == s.clauses[Len(s.clauses)].pos
Has(s, p) == \E i \in 1..Len(s.clauses) : s.clauses[i].pos = p
At(s, p) == CHOOSE i \in 1..Len(s.clauses) : s.clauses[i].pos = p

\* a clause at position p with head h, extended by an item
Clause(s, p, h) ==
  LET i == Cardinality({j \in 1..Len(s.clauses) : s.clauses[j].pos < p})
      c == [pos |-> p, head |-> (IF h # <<>> /\ s.nl THEN <<"\n">> ELSE <<>>) \o h, hargs |-> <<>>, items |-> <<>>]
  IN IF Has(s, p) THEN s
     ELSE [s EXCEPT !.clauses = SubSeq(s.clauses, 1, i) \o <<c>> \o SubSeq(s.clauses, i + 1, Len(s.clauses))]
Touch(s, p) == [s EXCEPT !.cur = p, !.memo = <<>>]
\* add fragment f = [toks, args] to clause p; sep separates it from the previous item
Add(s, p, h, sep, f) ==
  LET t == Touch(Clause(s, p, h), p)
      i == At(t, p)
      new == t.clauses[i].items = <<>>
      \* a clause without a head starts directly with its first item
      sp == IF ~new THEN sep ELSE IF t.clauses[i].head = <<>> THEN "" ELSE " "
  IN [t EXCEPT !.clauses[i].items = Append(@, [sep |-> sp, toks |-> f.toks, args |-> f.args])]
\* the text, and what was rendered of it, stays when the clause is there already
Head1(s, p, h) == IF Has(s, p) THEN [s EXCEPT !.cur = p] ELSE Touch(Clause(s, p, h), p)
\* a clause without items; its arguments are replaced when it is set again
SetHead(s, p, h, args) ==
  LET t == Head1(s, p, h) IN [t EXCEPT !.clauses[At(t, p)].hargs = args]
HeadOnce(s, p, h) == Head1(s, p, h)

------------------------------------------------------------- (* rendering *)
\* flattening by index arithmetic would be unreadable; statements are short
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
ItemToks(x) == (IF x.sep = "" THEN <<>> ELSE <<x.sep>>) \o x.toks
ClauseToks(c) == c.head \o Cat([i \in 1..Len(c.items) |-> ItemToks(c.items[i])])
Raw(s) == LET t == Cat([i \in 1..Len(s.clauses) |->
                     (IF i = 1 THEN <<>> ELSE <<" ">>) \o ClauseToks(s.clauses[i])])
          IN IF t # <<>> /\ t[1] = "\n" THEN Tail(t) ELSE t
ClauseArgs(c) == c.hargs \o Cat([i \in 1..Len(c.items) |-> c.items[i].args])
Args(s) == Cat([i \in 1..Len(s.clauses) |-> ClauseArgs(s.clauses[i])])

Number(t) == [i \in 1..Len(t) |->
   CASE t[i] = "?"   -> "$" \o ToString(Cardinality({j \in 1..i : t[j] = "?"}))
     [] t[i] = "\\?" -> "?"
     [] OTHER        -> t[i]]
Fresh(s, d) == IF d = "postgres" THEN Number(Raw(s)) ELSE Raw(s)
Cached(d, nm) == nm # "" /\ cache[d][nm] # <<>>
\* what rendering s in dialect d gives now
Text(s, d) == IF s.memo # <<>> /\ d = s.dialect THEN s.memo
              ELSE IF Cached(d, s.name) THEN cache[d][s.name] ELSE Fresh(s, d)
CacheWith(d, nm, t) == IF nm = "" \/ cache[d][nm] # <<>> THEN cache ELSE [cache EXCEPT ![d][nm] = t]

----------------------------------------------------------------- (* calls *)
Lit(x) == [toks |-> <<x>>, args |-> <<>>]
F(k, m) == Frag(k, m, "")
Frag1(o) == F(o.k, o.m)

InsertInto(s, f) ==
  LET a == Add(s, Pos("Insert"), <<"INSERT INTO">>, ", ", f)
      b == HeadOnce(a, Pos("InsertFields") - 1, <<"(">>)
      c == HeadOnce(b, Pos("Values") - 1, <<") VALUES (">>)
      d == HeadOnce(c, Pos("Values") + 1, <<")">>)
  IN Touch(d, Pos("InsertFields"))

\* column c with value v: extends an INSERT or an UPDATE, whichever comes first
SetCol(s, c, v) ==
  LET ins == Has(s, Pos("Insert")) IN
  IF ins THEN Add(Add(s, Pos("InsertFields"), <<>>, ", ", c), Pos("Values"), <<>>, ", ", v)
  ELSE IF Has(s, Pos("Update"))
       THEN Add(s, Pos("Set"), <<"SET">>, ", ", [toks |-> c.toks \o <<"=">> \o v.toks, args |-> v.args])
       ELSE s
RowSet(s, c, v) ==
  IF s.row = "first"
  THEN Add(Add(s, Pos("InsertFields"), <<>>, ", ", c), Pos("Values"), <<>>, ", ", v)
  ELSE [Add(s, Pos("Values"), <<>>, (IF s.row = "next" THEN "" ELSE ", "), v) EXCEPT !.row = "more"]
NewRow(s) ==
  IF Has(s, Pos("Values"))
  THEN [Add(s, Pos("Values"), <<>>, " ), (", Lit(" ")) EXCEPT !.row = "next"]
  ELSE [s EXCEPT !.row = "first"]

Limit(s, a) == SetHead(s, Pos("Limit"), <<"LIMIT ", "?">>, <<a>>)
Offset(s, a) == SetHead(s, Pos("Offset"), <<"OFFSET ", "?">>, <<a>>)
Paginate(s, page, size) ==
  LET pg == IF page < 1 THEN 1 ELSE page
      sz == IF size < 1 THEN 1 ELSE size
      a == IF pg > 1 THEN Offset(s, ToString((pg - 1) * sz)) ELSE s
  IN Limit(a, ToString(sz))

RawClause(s, f) ==
  SetHead(s, (IF s.clauses = <<>> THEN Pos("Start") ELSE Last(s) + 10), f.toks, f.args)
\* embedded statement q in text t
Embed(s, pre, suf, t, args) ==
  Add(s, s.cur, <<>>, (IF s.cur \in {Pos("Where"), Pos("Having")} THEN " AND " ELSE ", "),
      [toks |-> (IF pre = "" THEN <<>> ELSE <<pre>>) \o t \o (IF suf = "" THEN <<>> ELSE <<suf>>), args |-> args])
Union(s, all, t, args) ==
  LET p == IF s.clauses # <<>> /\ Last(s) >= Pos("Union") THEN Last(s) + 1 ELSE Pos("Union")
  IN SetHead(s, p, <<IF all THEN "UNION ALL " ELSE "UNION ">> \o t, args)
In(s, args) ==
  LET k == Len(args)
      ph == Cat([i \in 1..k |-> IF i < k THEN <<"?", ",">> ELSE <<"?">>])
  IN Add(s, Pos("Where"), <<>>, " ", [toks |-> <<"IN (">> \o ph \o <<")">>, args |-> args])
Join(s, kind, m) ==
  Add(s, Pos("From"), <<>>, " ", Lit(kind \o " t" \o ToString(m) \o " ON (c" \o ToString(m) \o ")"))
\* two exported fields (one in an embedded structure); a field without a tag and the tag options are ignored
Bind(s, m) ==
  LET sel(x, c) == Add(x, Pos("Select"), <<"SELECT">>, ", ", Lit(c))
      a == sel(sel(sel(s, "b_id"), "b_name"), "b_note")
      d == "b" \o ToString(m)
  IN [a EXCEPT !.dest = @ \o <<d \o ".id", d \o ".name", d \o ".note">>]

\* every call that extends one statement without looking at another one
Apply(s, o) ==
  LET f == IF "k" \in DOMAIN o THEN Frag1(o) ELSE Lit("") IN
  CASE o.op = "Select"   -> Add(s, Pos("Select"), <<"SELECT">>, ", ", f)
    [] o.op = "From"     -> Add(s, Pos("From"), <<"FROM">>, ", ", f)
    [] o.op = "Where"    -> Add(s, Pos("Where"), <<"WHERE">>, " AND ", f)
    [] o.op = "Having"   -> Add(s, Pos("Having"), <<"HAVING">>, " AND ", f)
    [] o.op = "GroupBy"  -> Add(s, Pos("GroupBy"), <<"GROUP BY">>, ", ", f)
    [] o.op = "OrderBy"  -> Add(s, Pos("OrderBy"), <<"ORDER BY">>, ", ", f)
    [] o.op = "OrderBy2" -> Add(s, Pos("OrderBy"), <<"ORDER BY">>, ", ",
                                [toks |-> f.toks \o <<", ">> \o Frag("plain", o.m, "z").toks, args |-> <<>>])
    [] o.op = "Returning" -> Add(s, Pos("Returning"), <<"RETURNING">>, ", ", f)
    [] o.op = "Update"   -> Add(s, Pos("Update"), <<"UPDATE">>, ", ", f)
    [] o.op = "DeleteFrom" -> Add(s, Pos("Delete"), <<"DELETE FROM">>, ", ", f)
    [] o.op = "InsertInto" -> InsertInto(s, f)
    [] o.op = "Set"      -> SetCol(s, Frag("plain", o.m, "c"), [toks |-> <<"?">>, args |-> <<"a" \o ToString(o.m)>>])
    [] o.op = "SetExpr"  -> SetCol(s, Frag("plain", o.m, "c"), f)
    [] o.op = "NewRow"   -> NewRow(s)
    [] o.op = "RowSet"   -> RowSet(s, Frag("plain", o.m, "c"), [toks |-> <<"?">>, args |-> <<"a" \o ToString(o.m)>>])
    [] o.op = "RowSetExpr" -> RowSet(s, Frag("plain", o.m, "c"), f)
    [] o.op = "In"       -> In(s, [i \in 1..o.cnt |-> "a" \o ToString(o.m) \o "i" \o ToString(i)])
    [] o.op = "Join"     -> Join(s, o.kind, o.m)
    [] o.op = "Limit"    -> Limit(s, "a" \o ToString(o.m))
    [] o.op = "Offset"   -> Offset(s, "a" \o ToString(o.m))
    [] o.op = "Paginate" -> Paginate(s, o.page, o.size)
    [] o.op = "Expr"     -> Add(s, s.cur, <<>>, ", ", f)
    [] o.op = "Clause"   -> RawClause(s, f)
    [] o.op = "To"       -> [s EXCEPT !.dest = @ \o [i \in 1..o.cnt |-> "d" \o ToString(o.m) \o "i" \o ToString(i)]]
    [] o.op = "Bind"     -> Bind(s, o.m)
    [] o.op = "Lines"    -> [s EXCEPT !.nl = o.on]
    [] o.op = "Invalidate" -> [s EXCEPT !.memo = <<>>]
    [] o.op = "SetName"  -> [s EXCEPT !.name = o.name, !.memo = <<>>]

\* constructors
Start(o) ==
  LET s == NewStmt(o.dialect) IN
  CASE o.how = "New" -> SetHead(s, Pos("Select"), Frag1(o).toks, Frag1(o).args)
    [] OTHER -> Apply(s, [o EXCEPT !.op = o.how])

NoArg == {"plain", "esc"} \cap Frags
AnyFrag == Frags
\* a head must not begin or end with white space or placeholders only
HeadFrag == Frags \ {"adj"}

Live == {i \in Slot : st[i].live}
Free == {i \in Slot : ~st[i].live}

Calls(i) == LET s == st[i] IN
  UNION {
    {[op |-> o, k |-> k] : o \in Ops \cap {"Select", "From", "Where", "Having", "Expr", "Clause"}, k \in Pick(AnyFrag)},
    {[op |-> o, k |-> k] : o \in Ops \cap {"GroupBy", "OrderBy", "OrderBy2", "Returning", "Update", "DeleteFrom", "InsertInto"}, k \in Pick(NoArg)},
    {[op |-> "Set"] : x \in Ops \cap {"Set"}},
    {[op |-> "SetExpr", k |-> k] : x \in Ops \cap {"SetExpr"}, k \in Pick(AnyFrag)},
    {[op |-> "NewRow"] : x \in IF Has(s, Pos("Insert")) THEN Ops \cap {"NewRow"} ELSE {}},
    {[op |-> "RowSet"] : x \in IF s.row # "none" THEN Ops \cap {"RowSet"} ELSE {}},
    {[op |-> "RowSetExpr", k |-> k] : x \in IF s.row # "none" THEN Ops \cap {"RowSetExpr"} ELSE {}, k \in Pick(AnyFrag)},
    {[op |-> "In", cnt |-> c] : x \in IF Has(s, Pos("Where")) THEN Ops \cap {"In"} ELSE {}, c \in Pick(1..3)},
    {[op |-> "Join", kind |-> c] : x \in IF Has(s, Pos("From")) THEN Ops \cap {"Join"} ELSE {},
                                   c \in Pick({"JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"})},
    {[op |-> o] : o \in Ops \cap {"Limit", "Offset", "Invalidate"}},
    {[op |-> "Paginate", page |-> p, size |-> z] : x \in Ops \cap {"Paginate"}, p \in Pick({-1, 0, 1, 2, 7}), z \in Pick({-5, 0, 1, 30})},
    {[op |-> "To", cnt |-> c] : x \in Ops \cap {"To"}, c \in Pick(0..2)},
    {[op |-> "Bind"] : x \in Ops \cap {"Bind"}},
    {[op |-> "Lines", on |-> b] : x \in Ops \cap {"Lines"}, b \in Pick({TRUE, FALSE})},
    {[op |-> "SetName", name |-> nm] : x \in Ops \cap {"SetName"}, nm \in Pick(Names)}
  }

\* statement q may be embedded: its text is its own, not one cached under its name earlier
Embeddable(q) == q.live /\ q.clauses # <<>> /\ Text(q, "none") = Fresh(q, "none")

Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist

Create(i, o) ==
  /\ st' = [st EXCEPT ![i] = Start(o)]
  /\ Log([o EXCEPT !.op = "Start"] @@ [i |-> i, nl |-> def.nl[o.dialect]])
  /\ UNCHANGED <<cache, def>>

Creators ==
  UNION {
    {[op |-> "Start", how |-> h, k |-> k, dialect |-> d] : h \in Ops \cap {"Select", "From", "New"}, k \in Pick(HeadFrag), d \in Pick(Dialects)},
    {[op |-> "Start", how |-> h, k |-> k, dialect |-> d] : h \in Ops \cap {"Update", "DeleteFrom", "InsertInto"}, k \in Pick(NoArg), d \in Pick(Dialects)}
  }

\* top: through the functions of the package
DoCreate == \E i \in Pick(Free) : \E o \in Pick(Creators) : \E top \in Pick(IF Random THEN {TRUE, FALSE} ELSE {FALSE}) :
  Create(i, [o EXCEPT !.dialect = IF top THEN def.dialect ELSE @] @@ [m |-> n, top |-> top])

DoCall == \E i \in Pick(Live) : \E o \in Pick(Calls(i)) :
  LET r == o @@ [m |-> n] IN
  /\ st' = [st EXCEPT ![i] = Apply(st[i], r)]
  /\ Log(r @@ [i |-> i])
  /\ UNCHANGED <<cache, def>>

\* embedding closes the embedded statement
DoEmbed == \E i \in Pick(Live) : \E j \in Pick({x \in Live \ {i} : Embeddable(st[x])}) : \E how \in Pick(Ops \cap {"SubQuery", "Bare", "Union", "UnionAll", "With"}) :
  LET t == Text(st[j], "none")
      a == Args(st[j])
      pre == "p" \o ToString(n)
      s == CASE how = "SubQuery" -> Embed(st[i], pre \o " IN (", ")", t, a)
             [] how = "Bare"     -> Embed(st[i], "", "", t, a)
             [] how = "With"     -> Embed(HeadOnce(st[i], Pos("With"), <<"WITH">>), pre \o " AS (", ")", t, a)
             [] how = "Union"    -> Union(st[i], FALSE, t, a)
             [] how = "UnionAll" -> Union(st[i], TRUE, t, a)
  IN /\ st' = [st EXCEPT ![i] = s, ![j] = Dead]
     /\ cache' = CacheWith("none", st[j].name, t)
     /\ Log([op |-> how, i |-> i, j |-> j, m |-> n])
     /\ UNCHANGED def

\* a new statement that begins with another one: WITH x AS (...)
DoStartWith == "With" \in Ops /\ \E i \in Pick(Free) : \E j \in Pick({x \in Live : Embeddable(st[x])}) :
  \E top \in Pick(IF Random THEN {TRUE, FALSE} ELSE {FALSE}) : \E d \in IF top THEN {def.dialect} ELSE Pick(Dialects) :
  LET t == Text(st[j], "none")
      s == HeadOnce(NewStmt(d), Pos("With"), <<"WITH">>)
  IN /\ st' = [st EXCEPT ![i] = Embed(s, "p" \o ToString(n) \o " AS (", ")", t, Args(st[j])), ![j] = Dead]
     /\ cache' = CacheWith("none", st[j].name, t)
     /\ Log([op |-> "StartWith", i |-> i, j |-> j, m |-> n, dialect |-> d, top |-> top, nl |-> def.nl[d]])
     /\ UNCHANGED def

\* a named statement renders under its name; the clone has no name
DoClone == "Clone" \in Ops /\ \E i \in Pick({x \in Live : st[x].name = ""}) : \E j \in Pick(Free) :
  /\ st' = [st EXCEPT ![j] = [st[i] EXCEPT !.row = "none"]]
  /\ Log([op |-> "Clone", i |-> i, j |-> j, m |-> n])
  /\ UNCHANGED <<cache, def>>

\* the default dialect is another one; it concerns the statements begun later
DoDefault == "Default" \in Ops /\ \E d \in Pick(Dialects) :
  /\ def' = [def EXCEPT !.dialect = d]
  /\ Log([op |-> "Default", i |-> 1, m |-> n, dialect |-> d])
  /\ UNCHANGED <<st, cache>>
\* line breaks of a dialect (top: of the default dialect), for the statements begun later
DoDialectLines == "Default" \in Ops /\ \E top \in Pick({TRUE, FALSE}), on \in Pick({TRUE, FALSE}) :
  \E d \in IF top THEN {def.dialect} ELSE Pick(Dialects) :
  /\ def' = [def EXCEPT !.nl[d] = on]
  /\ Log([op |-> "DialectLines", i |-> 1, m |-> n, dialect |-> d, top |-> top, on |-> on])
  /\ UNCHANGED <<st, cache>>

Exp(s, t) == [text |-> t, args |-> Args(s), dest |-> s.dest, name |-> s.name, dialect |-> s.dialect,
              fresh |-> IF s.name = "" THEN <<>> ELSE Fresh(s, s.dialect)]
Look(i, how) ==
  LET s == st[i]
      t == Text(s, s.dialect)
  IN /\ cache' = CacheWith(s.dialect, s.name, t)
     /\ st' = [st EXCEPT ![i].memo = t] /\ UNCHANGED def
     /\ Log([op |-> how, i |-> i, m |-> n, exp |-> Exp(s, t)])
Closing == {"Close", "ExecAndClose", "QueryAndClose", "QueryRowAndClose"}
LookClose(i, how) ==
  LET s == st[i]
      t == Text(s, s.dialect)
  IN /\ cache' = CacheWith(s.dialect, s.name, t)
     /\ st' = [st EXCEPT ![i] = Dead] /\ UNCHANGED def
     /\ Log([op |-> how, i |-> i, m |-> n, exp |-> Exp(s, t)])
Renderable(i) == st[i].clauses # <<>>
DoLook == \E i \in Pick({x \in Live : Renderable(x)}) : \E how \in Pick(Ops \cap ({"String", "Exec", "Query", "QueryRow"} \cup Closing)) :
  IF how \in Closing THEN LookClose(i, how) ELSE Look(i, how)

\* GetOrCreateQuery(name, ...) in dialect of statement i, which is what the callback returns
DoGetOrCreate == "GetOrCreate" \in Ops /\ \E i \in Pick({x \in Live : Renderable(x)}) : \E nm \in Pick(Names \ {""}) :
  LET s == st[i]
      hit == Cached(s.dialect, nm)
      t == IF hit THEN cache[s.dialect][nm] ELSE Fresh(s, s.dialect)
  IN /\ cache' = CacheWith(s.dialect, nm, t)
     /\ st' = (IF hit THEN st ELSE [st EXCEPT ![i].name = nm, ![i].memo = t]) /\ UNCHANGED def
     /\ Log([op |-> "GetOrCreate", i |-> i, m |-> n, name |-> nm, dialect |-> s.dialect, built |-> ~hit, exp |-> [text |-> t]])
DoPeek == "Peek" \in Ops /\ \E d \in Pick({"none", "postgres", "sqlserver"}) : \E nm \in Pick(Names \ {""}) :
  /\ Log([op |-> "Peek", i |-> 1, m |-> n, dialect |-> d, name |-> nm, exp |-> [text |-> cache[d][nm]], found |-> Cached(d, nm)])
  /\ UNCHANGED <<st, cache, def>>
\* nothing is said about a statement that was rendered before its cached text is replaced
Rendered(d, nm) == \E i \in Live : st[i].dialect = d /\ st[i].name = nm /\ st[i].memo # <<>>
DoPut == "Put" \in Ops /\ \E d \in Pick({"none", "postgres", "sqlserver"}) : \E nm \in Pick(Names \ {""}) :
  /\ ~Rendered(d, nm)
  /\ cache' = [cache EXCEPT ![d][nm] = <<"put" \o ToString(n)>>]
  /\ Log([op |-> "Put", i |-> 1, m |-> n, dialect |-> d, name |-> nm, text |-> "put" \o ToString(n)])
  /\ UNCHANGED <<st, def>>

Init ==
  /\ st = [i \in Slot |-> Dead]
  /\ cache = [d \in {"none", "postgres", "sqlserver"} |-> [nm \in Names |-> <<>>]]
  /\ def = [dialect |-> "none", nl |-> [d \in {"none", "postgres", "sqlserver"} |-> TRUE]]
  /\ n = 1 /\ hist = <<>> /\ done = FALSE

\* Weights: with random parameters each disjunct counts as one choice.
Step == DoCreate \/ DoCall \/ DoEmbed \/ DoStartWith \/ DoClone \/ DoLook \/ DoGetOrCreate \/ DoPeek \/ DoPut \/ DoDefault \/ DoDialectLines
More == Random /\ (DoCall \/ DoCall \/ DoCall \/ DoCall)
\* the last steps of a behaviour look at every live statement, in order: an
\* earlier one may be the first to render under a name
FinalText(i) ==
  LET s == st[i]
      first == {j \in Live : j < i /\ st[j].dialect = s.dialect /\ st[j].name = s.name /\ st[j].clauses # <<>>}
  IN IF s.name = "" \/ s.memo # <<>> \/ Cached(s.dialect, s.name) \/ first = {} THEN Text(s, s.dialect)
     ELSE LET j == CHOOSE x \in first : \A y \in first : x <= y IN Fresh(st[j], s.dialect)
Finish ==
  /\ n > Depth /\ ~done /\ done' = TRUE
  /\ Record => PrintT("BEH " \o ToJson(Append(hist, [op |-> "Final", m |-> n,
        all |-> [i \in 1..Slots |-> IF st[i].live THEN [live |-> TRUE, exp |-> Exp(st[i], FinalText(i))] ELSE [live |-> FALSE]]])))
  /\ UNCHANGED <<st, cache, def, n, hist>>
Next == \/ /\ n <= Depth /\ n' = n + 1 /\ UNCHANGED done /\ (Step \/ More)
        \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------------ (* design properties *)
Count(t, x) == Cardinality({i \in 1..Len(t) : t[i] = x})
\* B01: as many placeholders as arguments
Balanced == \A i \in Live : Count(Raw(st[i]), "?") = Len(Args(st[i]))
\* B02: clauses in order, each once
Ordered == \A i \in Live : \A a, b \in 1..Len(st[i].clauses) : a < b => st[i].clauses[a].pos < st[i].clauses[b].pos
\* B05: a memo is what a fresh rendering gives, for unnamed statements
Transparent == \A i \in Live : st[i].memo # <<>> /\ st[i].name = "" => st[i].memo = Fresh(st[i], st[i].dialect)
\* a cached text never changes
Stable == [][\A d \in DOMAIN cache, nm \in Names : cache[d][nm] # <<>> /\ "Put" \notin Ops => cache'[d][nm] = cache[d][nm]]_vars
=============================================================================
