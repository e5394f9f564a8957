---------------------------- MODULE NotifierImpl ----------------------------
(***************************************************************************)
(* How notifications travel: the connection's reader passes them to one    *)
(* dispatcher through a bounded channel, the dispatcher to a bounded       *)
(* channel of each topic, from which the topic's worker calls the          *)
(* callback.  Contexts end, the listener is closed, the connection is      *)
(* lost, at any moment.  All interleavings are checked.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Topics, Msgs,       \* at most Msgs notifications
          CapMain, CapTopic,  \* capacities of the channels
          Drops               \* how often the connection is lost

VARIABLES sent,     \* topic -> notifications the database delivered while its context had not ended
          reader,   \* queue from the connection to the listener
          main,     \* the listener's channel; 0 stands for the mark of a new connection
          disp,     \* what the dispatcher holds: a notification, or none
          chan,     \* topic -> its channel
          worker,   \* topic -> idle, calling, unlisten, done
          ctx,      \* topics whose context has ended
          done,     \* topics that take no more
          got,      \* topic -> notifications its callback was called with
          after,    \* notifications delivered after the end of their topic's context
          told,     \* topics the database was told to send
          closed, k, drops, dead
vars == <<sent, reader, main, disp, chan, worker, ctx, done, got, after, told, closed, k, drops, dead>>

None == [t |-> "none", m |-> 0]
Mark == [t |-> "mark", m |-> 0]
Init == /\ sent = [t \in Topics |-> <<>>] /\ reader = <<>> /\ main = <<>> /\ disp = None
        /\ chan = [t \in Topics |-> <<>>] /\ worker = [t \in Topics |-> "idle"] /\ ctx = {} /\ done = {}
        /\ got = [t \in Topics |-> <<>>] /\ after = {} /\ told = Topics /\ closed = FALSE /\ k = 0 /\ drops = 0
        /\ dead = FALSE

\* the database delivers: to those it was told, and maybe late to the others
Deliver(t) ==
  /\ k < Msgs /\ ~closed /\ k' = k + 1
  /\ reader' = Append(reader, [t |-> t, m |-> k + 1])
  /\ IF t \in ctx THEN after' = after \cup {k + 1} /\ UNCHANGED sent
     ELSE sent' = [sent EXCEPT ![t] = Append(@, k + 1)] /\ UNCHANGED after
  /\ UNCHANGED <<main, disp, chan, worker, ctx, done, got, told, closed, drops, dead>>
\* the connection is lost after what it had delivered was read; the new one is told the topics
Drop ==
  /\ drops < Drops /\ ~closed /\ reader = <<>> /\ drops' = drops + 1
  /\ reader' = <<Mark>> /\ told' = {t \in Topics : worker[t] # "done"}
  /\ UNCHANGED <<sent, main, disp, chan, worker, ctx, done, got, after, closed, k, dead>>
Read ==
  /\ reader # <<>> /\ Len(main) < CapMain
  /\ main' = Append(main, Head(reader)) /\ reader' = Tail(reader)
  /\ UNCHANGED <<sent, disp, chan, worker, ctx, done, got, after, told, closed, k, drops, dead>>
Dispatch ==
  /\ disp = None /\ main # <<>>
  /\ disp' = (IF Head(main) = Mark \/ closed \/ Head(main).t \in done THEN None ELSE Head(main))
  /\ main' = Tail(main)
  /\ UNCHANGED <<sent, reader, chan, worker, ctx, done, got, after, told, closed, k, drops, dead>>
Pass ==
  /\ disp # None
  /\ \/ /\ Len(chan[disp.t]) < CapTopic
        /\ chan' = [chan EXCEPT ![disp.t] = Append(@, disp.m)]
     \/ (closed \/ disp.t \in done) /\ UNCHANGED chan
  /\ disp' = None
  /\ UNCHANGED <<sent, reader, main, worker, ctx, done, got, after, told, closed, k, drops, dead>>
Call(t) ==
  /\ worker[t] = "idle" /\ chan[t] # <<>>
  /\ chan' = [chan EXCEPT ![t] = Tail(@)]
  /\ IF t \in ctx THEN UNCHANGED <<got, worker>>
     ELSE got' = [got EXCEPT ![t] = Append(@, Head(chan[t]))] /\ worker' = [worker EXCEPT ![t] = "calling"]
  /\ UNCHANGED <<sent, reader, main, disp, ctx, done, after, told, closed, k, drops, dead>>
Return(t) ==
  /\ worker[t] = "calling" /\ worker' = [worker EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<sent, reader, main, disp, chan, ctx, done, got, after, told, closed, k, drops, dead>>
CtxDone(t) ==
  /\ t \notin ctx /\ ctx' = ctx \cup {t}
  /\ UNCHANGED <<sent, reader, main, disp, chan, worker, done, got, after, told, closed, k, drops, dead>>
\* the worker notices, lets the dispatcher go on, and tells the database; the answer is read
\* by the connection's reader, behind what was delivered before it
Stop(t) ==
  /\ worker[t] = "idle" /\ t \in ctx
  /\ done' = done \cup {t} /\ worker' = [worker EXCEPT ![t] = "unlisten"]
  /\ UNCHANGED <<sent, reader, main, disp, chan, ctx, got, after, told, closed, k, drops, dead>>
Unlistened(t) ==
  /\ worker[t] = "unlisten" /\ (closed \/ reader = <<>>)
  /\ worker' = [worker EXCEPT ![t] = "done"] /\ told' = told \ {t}
  /\ UNCHANGED <<sent, reader, main, disp, chan, ctx, done, got, after, closed, k, drops, dead>>
Close ==
  /\ ~closed /\ closed' = TRUE /\ told' = {}
  /\ UNCHANGED <<sent, reader, main, disp, chan, worker, ctx, done, got, after, k, drops, dead>>
Quit(t) ==
  /\ closed /\ worker[t] = "idle" /\ worker' = [worker EXCEPT ![t] = "done"]
  /\ UNCHANGED <<sent, reader, main, disp, chan, ctx, done, got, after, told, closed, k, drops, dead>>
\* the reader and the dispatcher end when there is nothing more to come
Dead ==
  /\ closed /\ reader = <<>> /\ main = <<>> /\ disp = None /\ ~dead /\ dead' = TRUE
  /\ UNCHANGED <<sent, reader, main, disp, chan, worker, ctx, done, got, after, told, closed, k, drops>>

Background == Read \/ Dispatch \/ Pass \/ Dead \/ \E t \in Topics : Return(t) \/ Unlistened(t)
Env == Drop \/ Close \/ \E t \in Topics : Deliver(t) \/ CtxDone(t)
Next == Env \/ Background \/ \E t \in Topics : Call(t) \/ Stop(t) \/ Quit(t)
Fair == /\ WF_vars(Read) /\ WF_vars(Dispatch) /\ WF_vars(Pass) /\ WF_vars(Dead)
        /\ \A t \in Topics : WF_vars(Return(t)) /\ WF_vars(Unlistened(t))
                             /\ WF_vars(worker[t] = "idle" /\ (Call(t) \/ Stop(t) \/ Quit(t)))
                             /\ SF_vars(Stop(t)) /\ SF_vars(Quit(t))   \* a ready case of a select is taken in the end
Spec == Init /\ [][Next]_vars /\ Fair

------------------------------------------------------------------------------
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* the callback of a topic receives what was delivered to it, in order, once, and nothing else
InOrder == \A t \in Topics : Prefix(got[t], sent[t])
NotAfter == \A t \in Topics, i \in 1..10 : i <= Len(got[t]) => got[t][i] \notin after
\* everything arrives, unless the context ends or the listener is closed
Arrives == \A t \in Topics : \A i \in 1..Msgs :
             (i <= Len(sent[t])) ~> (i <= Len(got[t]) \/ t \in ctx \/ closed)
\* the database is told to stop; closing ends everything
Stops == \A t \in Topics : (t \in ctx) ~> (t \notin told)
Ends == closed ~> (dead /\ \A t \in Topics : worker[t] = "done")
=============================================================================
