----------------------------- MODULE KeepAlive -----------------------------
(***************************************************************************)
(* The keep-alive design: a ticker with room for one tick, a goroutine     *)
(* that pings on each tick, and Close, which stops the ticker, tells the   *)
(* goroutine to end and closes the pool.  Every interleaving.              *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS MaxTicks, MaxTx

VARIABLES ticks,   \* periods that have passed
          chan,    \* a tick is waiting
          ticker,  \* the ticker runs
          done,    \* the goroutine was told to end
          g,       \* the goroutine: wait, ping, end
          pool,    \* the connection pool is open
          pings,   \* pings that reached the database
          late,    \* pings begun after Close returned
          closed, txs
vars == <<ticks, chan, ticker, done, g, pool, pings, late, closed, txs>>

Init == ticks = 0 /\ chan = FALSE /\ ticker = TRUE /\ done = FALSE /\ g = "wait" /\ pool = TRUE /\ pings = 0 /\ late = 0 /\ closed = "no" /\ txs = 0
Tick == ticker /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ chan' = TRUE /\ UNCHANGED <<ticker, done, g, pool, pings, late, closed, txs>>
\* select takes either branch when both are ready
Wake == g = "wait" /\ chan /\ chan' = FALSE /\ g' = "ping" /\ UNCHANGED <<ticks, ticker, done, pool, pings, late, closed, txs>>
Ping == /\ g = "ping" /\ g' = "wait"
        /\ pings' = (IF pool THEN pings + 1 ELSE pings)   \* a closed pool refuses: nothing reaches the database
        /\ late' = (IF pool /\ closed = "yes" THEN late + 1 ELSE late)
        /\ UNCHANGED <<ticks, chan, ticker, done, pool, closed, txs>>
End == g = "wait" /\ done /\ g' = "end" /\ UNCHANGED <<ticks, chan, ticker, done, pool, pings, late, closed, txs>>
Close1 == closed = "no" /\ closed' = "stop" /\ ticker' = FALSE /\ UNCHANGED <<ticks, chan, done, g, pool, pings, late, txs>>
Close2 == closed = "stop" /\ closed' = "pool" /\ done' = TRUE /\ UNCHANGED <<ticks, chan, ticker, g, pool, pings, late, txs>>
Close3 == closed = "pool" /\ closed' = "yes" /\ pool' = FALSE /\ UNCHANGED <<ticks, chan, ticker, done, g, pings, late, txs>>
Begin == closed = "no" /\ txs < MaxTx /\ txs' = txs + 1 /\ UNCHANGED <<ticks, chan, ticker, done, g, pool, pings, late, closed>>
CloseTx == txs > 0 /\ txs' = txs - 1 /\ UNCHANGED <<ticks, chan, ticker, done, g, pool, pings, late, closed>>
Next == Tick \/ Wake \/ Ping \/ End \/ Close1 \/ Close2 \/ Close3 \/ Begin \/ CloseTx
Spec == Init /\ [][Next]_vars /\ WF_vars(Wake) /\ WF_vars(Ping) /\ SF_vars(End) /\ WF_vars(Close2) /\ WF_vars(Close3)

NoLatePing == late = 0
PingsBound == pings <= ticks
OpenUntilClosed == closed = "no" => ticker /\ pool /\ g # "end"
\* the goroutine ends once the provider is closed, and a tick while open leads to a ping
Ends == closed = "yes" ~> g = "end"
Pinged == (chan /\ closed = "no") ~> (~chan \/ closed # "no")
=============================================================================
