------------------------------- MODULE Flake -------------------------------
(***************************************************************************)
(* The flake (snowflake) ID generator: pkg/flake.                          *)
(*                                                                         *)
(* One generator owns a pair (el, seq): the millisecond of the last ID and *)
(* the number inside it.  The clock is an environment variable in          *)
(* milliseconds that may stall, jump forward and jump backward.  NextID is *)
(* one critical section of the code (the mutex is held throughout,         *)
(* including the wait for the next millisecond).                           *)
(*                                                                         *)
(* Times are relative to a base so that the 41-bit limit is reachable with *)
(* TLC's 32-bit integers; the harness maps them to real times.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K,          \* IDs per millisecond (64 in the code)
          NGen,       \* number of generators
          Machines,   \* machine ids to choose from
          Bursts,     \* numbers of consecutive calls in one step
          Fwd, Back,  \* clock jumps
          Scenarios,  \* subset of {"zero", "today", "limit"}
          LimitT,     \* first millisecond over the limit in scenario "limit"
          Depth,      \* length of a behaviour
          Record      \* TRUE: keep and print the history

VARIABLES clock, gens, scen, mach, hist, done, over

vars == <<clock, gens, scen, mach, hist, done, over>>

Gen == 1..NGen
Limit == IF scen = "limit" THEN LimitT ELSE 1000000000
\* a generator of scenario "zero" starts exactly at the base, the others long before
InitEl(s) == IF s = "zero" THEN 0 ELSE -100000000

Max(a, b) == IF a > b THEN a ELSE b

\* One NextID on generator state g at clock c: the new state, the new clock
\* (moved by the wait if the millisecond is used up).
Step(g, c) ==
  IF g.el < c THEN [el |-> c, seq |-> 0, clock |-> c]
  ELSE LET s == (g.seq + 1) % K IN
       IF s # 0 THEN [el |-> g.el, seq |-> s, clock |-> c]
       ELSE [el |-> g.el + 1, seq |-> 0, clock |-> Max(c, g.el + 1)]

\* n calls in a row: the times of the IDs, run-length encoded.  After the first
\* call el >= clock, so the following calls only count up (CallsAgree checks
\* this closed form against iterated Steps).
Calls(g, c, n) ==
  LET f == Step(g, c)
      q(j) == f.seq + j                              \* j-th call, from 0
      t(j) == f.el + (q(j) \div K)
      legal == {j \in 0..n-1 : t(j) < Limit}
      m == Cardinality(legal)                        \* calls below the limit
      lastc == IF m = 0 THEN f.clock ELSE Max(f.clock, IF q(m-1) >= K THEN t(m-1) ELSE f.clock)
      nrun == IF m = 0 THEN 0 ELSE t(m-1) - f.el + 1
      cnt(i) == Cardinality({j \in legal : t(j) = f.el + i - 1})
  IN [g |-> IF m = n THEN [el |-> t(n-1), seq |-> q(n-1) % K]
            ELSE [el |-> t(m), seq |-> q(m) % K],
      clock |-> IF m = n THEN lastc ELSE IF q(m) >= K THEN Max(lastc, t(m)) ELSE lastc,
      runs |-> [i \in 1..nrun |-> [t |-> f.el + i - 1, n |-> cnt(i)]],
      over |-> m < n]

RECURSIVE Iter(_, _, _)
Iter(g, c, n) == IF n = 0 THEN [g |-> g, clock |-> c]
                 ELSE LET s == Step(g, c) IN Iter([el |-> s.el, seq |-> s.seq], s.clock, n - 1)
CallsAgree == \A g \in Gen, n \in 1..(2*K+2) :
   LET st == [el |-> gens[g].el, seq |-> gens[g].seq]
       a == Calls(st, clock, n)
       b == Iter(st, clock, n)
   IN ~a.over => a.g = b.g /\ a.clock = b.clock

Log(r) == IF Record THEN hist' = Append(hist, r) ELSE hist' = hist

Init ==
  /\ scen \in Scenarios
  /\ mach \in {f \in [Gen -> Machines] : \A a, b \in Gen : a # b => f[a] # f[b]}
  /\ clock = 0
  /\ gens = [g \in Gen |-> [el |-> InitEl(scen), seq |-> K - 1, live |-> FALSE]]
  /\ over = FALSE
  /\ done = FALSE
  /\ hist = <<>>

\* Creating a generator issues its first ID.
New(g) ==
  /\ ~over /\ ~done /\ Len(hist) < Depth
  /\ ~gens[g].live
  /\ clock >= 0 \/ scen # "zero"   \* otherwise the start time is in the future
  /\ LET r == Calls([el |-> gens[g].el, seq |-> gens[g].seq], clock, 1) IN
       /\ gens' = [gens EXCEPT ![g] = [el |-> r.g.el, seq |-> r.g.seq, live |-> TRUE]]
       /\ clock' = r.clock
       /\ over' = r.over
       /\ Log([op |-> "New", g |-> g, m |-> mach[g], scen |-> scen,
               runs |-> r.runs, over |-> r.over, clock |-> r.clock])
  /\ UNCHANGED <<scen, mach, done>>

NextIDs(g, n) ==
  /\ ~over /\ ~done /\ Len(hist) < Depth
  /\ gens[g].live
  /\ LET r == Calls([el |-> gens[g].el, seq |-> gens[g].seq], clock, n) IN
       /\ gens' = [gens EXCEPT ![g] = [el |-> r.g.el, seq |-> r.g.seq, live |-> TRUE]]
       /\ clock' = r.clock
       /\ over' = r.over
       /\ Log([op |-> "Next", g |-> g, m |-> mach[g], scen |-> scen, k |-> n,
               runs |-> r.runs, over |-> r.over, clock |-> r.clock])
  /\ UNCHANGED <<scen, mach, done>>

Forward(d) ==
  /\ ~over /\ ~done /\ Len(hist) < Depth
  /\ clock' = clock + d
  /\ Log([op |-> "Clock", d |-> d, scen |-> scen])
  /\ UNCHANGED <<gens, scen, mach, done, over>>

Backward(d) ==
  /\ ~over /\ ~done /\ Len(hist) < Depth
  /\ clock' = clock - d
  /\ Log([op |-> "Clock", d |-> -d, scen |-> scen])
  /\ UNCHANGED <<gens, scen, mach, done, over>>

Finish ==
  /\ Record /\ ~done /\ (Len(hist) = Depth \/ over)
  /\ PrintT("BEH " \o ToJson(hist))
  /\ done' = TRUE
  /\ UNCHANGED <<clock, gens, scen, mach, hist, over>>

NextAny == \E g \in Gen, n \in Bursts : NextIDs(g, n)
Next ==
  \/ \E g \in Gen : New(g)
  \/ NextAny
  \/ \E d \in Fwd : Forward(d)
  \/ \E d \in Back : Backward(d)
  \/ Finish

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Design properties *)

Less(a, b) == a.el < b.el \/ (a.el = b.el /\ a.seq < b.seq)

\* F01: the last ID of a generator only grows (checked with Bursts = {1}, so
\* that every ID is observed)
Monotone == [][\A g \in Gen :
                 gens[g].live /\ gens'[g] # gens[g] => Less(gens[g], gens'[g])]_vars
\* every call produces a new pair
Progress == [][\A g \in Gen, n \in Bursts : NextIDs(g, n) => Less(gens[g], gens'[g])]_vars
\* F02: never earlier than the clock at the call
NotEarlier == [][\A g \in Gen, n \in Bursts : NextIDs(g, n) => gens'[g].el >= clock]_vars
\* F02: with a clock that never went back the ID is not from the future
NoFuture == (Back = {}) => \A g \in Gen : gens[g].live => gens[g].el <= clock
SeqRange == \A g \in Gen : gens[g].seq \in 0..(K-1)

\* bound for exhaustive checking
Bound == clock \in -4..LimitT+2 /\ \A g \in Gen : gens[g].live => gens[g].el <= LimitT + 2
=============================================================================
