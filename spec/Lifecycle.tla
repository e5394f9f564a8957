----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of a provider as its user and its database see it: pings every *)
(* period while open, whatever becomes of them, and nothing after Close.   *)
(* Time is in half seconds.  lo and hi bound the pings so far: they differ *)
(* only after a ping hung for over a period, or when Close meets a tick.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Steps, Modes, MaxTx, Depth, MaxTime, Record, Walk

VARIABLES t, open, mode, hung, pend, lo, hi, txs, ops, fin
vars == <<t, open, mode, hung, pend, lo, hi, txs, ops, fin>>

Period == 120
Log(o) == ops' = IF Record THEN Append(ops, o @@ [lo |-> lo', hi |-> hi', open |-> open', active |-> Cardinality({i \in 1..Len(txs') : txs'[i]})]) ELSE ops
\* the time never rests on a tick
Advance(d) ==
  LET u == IF (t + d) % Period = 0 THEN t + d + 1 ELSE t + d
      n == (u \div Period) - (t \div Period) IN
  /\ u <= MaxTime /\ t' = u
  /\ IF ~open \/ n = 0 THEN UNCHANGED <<lo, hi, hung, pend>>
     ELSE IF hung THEN pend' = TRUE /\ UNCHANGED <<lo, hi, hung>>
     ELSE IF mode = "hang" THEN hung' = TRUE /\ pend' = (n > 1) /\ lo' = lo + 1 /\ hi' = hi + 1
     ELSE lo' = lo + n /\ hi' = hi + n /\ UNCHANGED <<hung, pend>>
  /\ UNCHANGED <<open, mode, txs, fin>> /\ Log([op |-> "Advance", d |-> u - t])
SetMode(m) == /\ ~hung /\ m # mode /\ mode' = m /\ UNCHANGED <<t, open, hung, pend, lo, hi, txs, fin>> /\ Log([op |-> "Mode", mode |-> m])
\* the tick that came while the ping hung may be served now
Release == /\ hung /\ hung' = FALSE /\ mode' = "ok" /\ pend' = FALSE
           /\ hi' = (IF pend /\ open THEN hi + 1 ELSE hi) /\ UNCHANGED <<t, open, lo, txs, fin>> /\ Log([op |-> "Release"])
CloseP(fail) == /\ open' = FALSE /\ UNCHANGED <<t, mode, hung, pend, lo, hi, txs, fin>> /\ Log([op |-> "Close", again |-> ~open, fail |-> fail])
CloseAtTick ==
  LET u == (t \div Period + 1) * Period IN
  /\ open /\ ~hung /\ mode # "hang" /\ u <= MaxTime /\ t' = u + 1 /\ open' = FALSE /\ hi' = hi + 1
  /\ UNCHANGED <<mode, hung, pend, lo, txs, fin>> /\ Log([op |-> "CloseAtTick", d |-> u - t])
Begin == /\ mode # "down" /\ Len(txs) < MaxTx /\ txs' = (IF open THEN Append(txs, TRUE) ELSE txs)
         /\ UNCHANGED <<t, open, mode, hung, pend, lo, hi, fin>> /\ Log([op |-> "Begin", ok |-> open])
FinishTx(i, how) == /\ txs' = [txs EXCEPT ![i] = FALSE] /\ UNCHANGED <<t, open, mode, hung, pend, lo, hi, fin>>
                    /\ Log([op |-> "FinishTx", t |-> i, how |-> how])
Exec(i) == /\ mode # "down" /\ UNCHANGED <<t, open, mode, hung, pend, lo, hi, txs, fin>>
           /\ Log([op |-> "Exec", t |-> i, ok |-> IF i = 0 THEN open ELSE txs[i]])
Init == t = 1 /\ open = TRUE /\ mode = "ok" /\ hung = FALSE /\ pend = FALSE /\ lo = 0 /\ hi = 0 /\ txs = <<>> /\ ops = <<>> /\ fin = FALSE
Do(k) ==
  \/ k = "Advance" /\ \E d \in Steps : Advance(d)
  \/ k = "Mode" /\ \E m \in Modes : SetMode(m)
  \/ k = "Release" /\ Release
  \/ k = "Close" /\ ((\E f \in BOOLEAN : CloseP(f)) \/ CloseAtTick)
  \/ k = "Begin" /\ Begin
  \/ k = "FinishTx" /\ \E i \in 1..Len(txs), how \in {"close", "commit", "rollback"} : FinishTx(i, how)
  \/ k = "Exec" /\ \E i \in 0..Len(txs) : Exec(i)
Kinds == {"Advance", "Mode", "Release", "Close", "Begin", "FinishTx", "Exec"}
Weights == <<"Advance", "Advance", "Advance", "Advance", "Mode", "Mode", "Release", "Close", "Begin", "FinishTx", "FinishTx", "Exec", "Exec">>
Can(i) == LET k == Weights[i] IN
  CASE k = "Advance" -> t + 2 * Period < MaxTime
    [] k = "Mode" -> ~hung
    [] k = "Release" -> hung
    [] k = "Close" -> Len(ops) > Depth \div 3
    [] k = "Begin" -> mode # "down" /\ Len(txs) < MaxTx
    [] k = "FinishTx" -> Len(txs) > 0
    [] OTHER -> mode # "down"
Some == {i \in 1..Len(Weights) : Can(i)}
Next == \/ ~fin /\ (Record => Len(ops) < Depth) /\ \E k \in (IF Walk THEN (IF Some = {} THEN {"Close"} ELSE {Weights[RandomElement(Some)]}) ELSE Kinds) : Do(k)
        \/ /\ Record /\ ~fin /\ Len(ops) = Depth /\ fin' = TRUE /\ PrintT("BEH " \o ToJson(ops)) /\ UNCHANGED <<t, open, mode, hung, pend, lo, hi, txs, ops>>
Spec == Init /\ [][Next]_vars

Bounds == lo <= hi /\ hi <= t \div Period + 1
NothingAfter == [][~open => lo' = lo /\ hi' = hi /\ ~open']_vars
=============================================================================
