------------------------------- MODULE Paging -------------------------------
(***************************************************************************)
(* Walking a result page by page, by offset or by cursor.  The result has  *)
(* rows 1..total in order and does not change.  A page may fail (the       *)
(* database reports an error) and is then asked for again.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,     \* "offset", "cursor"
          Styles,    \* how the page is asked for; those in Whole ask for all rows
          Totals, Limits, Starts,
          Keys,      \* kinds of cursor keys
          Highs,     \* TRUE: offsets close to the end of 32 bits
          MaxFails, Record

VARIABLES cfg, pos, seen, more, fails, pages, fin
vars == <<cfg, pos, seen, more, fails, pages, fin>>

Whole == {"plain", "nopage", "none", "query", "queryparams"}
Default == 500   \* the page size when none is given
Configs == {c \in [kind : Kinds, style : Styles, total : Totals, limit : Limits, start : Starts, key : Keys, high : Highs] :
              /\ c.kind = "cursor" => ~c.high /\ (c.limit > 0 \/ c.style = "params" \/ c.style \in Whole)
              /\ c.kind = "offset" => c.key = "small"
              /\ c.start <= c.total + 2
              /\ c.style \in Whole => c.limit = 0 /\ c.start = 0
              /\ c.high => c.style \in {"args", "params", "argsu", "bare"} /\ c.limit > 0}

\* a page size of zero means the default in a parameter set, and no limit in plain arguments
Limit == IF cfg.limit = 0 /\ cfg.style = "params" THEN Default ELSE cfg.limit
Left == IF pos >= cfg.total THEN 0 ELSE cfg.total - pos
Count == IF Limit = 0 \/ Left < Limit THEN Left ELSE Limit
HasNext == Limit > 0 /\ Count = Limit

Init == cfg \in Configs /\ pos = cfg.start /\ seen = 0 /\ more = TRUE /\ fails = 0 /\ pages = <<>> /\ fin = FALSE
Page ==
  /\ more
  /\ pos' = pos + Count
  /\ seen' = seen + Count
  /\ more' = HasNext
  /\ pages' = Append(pages, [fail |-> FALSE, at |-> pos, count |-> Count, more |-> HasNext, next |-> IF HasNext THEN pos + Count ELSE 0])
  /\ UNCHANGED <<cfg, fails, fin>>
Fail ==
  /\ more /\ fails < MaxFails /\ fails' = fails + 1
  /\ pages' = Append(pages, [fail |-> TRUE, at |-> pos, count |-> Count, more |-> FALSE, next |-> 0])
  /\ UNCHANGED <<cfg, pos, seen, more, fin>>
Finish == ~more /\ ~fin /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(<<cfg>> \o pages))) /\ UNCHANGED <<cfg, pos, seen, more, fails, pages>>
Next == Page \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Page)

\* every row from the start on is seen exactly once: pages are adjacent and end at the last row
Once == /\ pos = cfg.start + seen
        /\ ~more => pos >= cfg.total /\ (cfg.start <= cfg.total => pos = cfg.total)
        /\ \A i \in 1..Len(pages) : \A j \in 1..Len(pages) :
             i < j /\ ~pages[i].fail => pages[j].at >= pages[i].at + pages[i].count
NextIsEnd == \A i \in 1..Len(pages) : pages[i].more => pages[i].next = pages[i].at + pages[i].count
Ends == <>(~more)
=============================================================================
