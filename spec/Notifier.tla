------------------------------ MODULE Notifier ------------------------------
(***************************************************************************)
(* A listener shared by several topics, as its callers and the database    *)
(* see it.  The caller listens to topics, ends their contexts and closes   *)
(* the listener; callbacks may be slow.  The database sends notifications, *)
(* drops the connection, is down for a while, refuses a LISTEN.            *)
(*                                                                         *)
(* Callbacks run in the background: between two synchronisations it is     *)
(* open how far they got, so that what a cancelled topic's callback has    *)
(* received is only known to be a prefix of what was sent, and to include  *)
(* what it had received for sure.  (How the notifications travel through   *)
(* the listener is in NotifierImpl.tla.)                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Topics, Payloads, Bursts, Depth, Walk, Record,
          IdleAt  \* after how many calls a minute passes in which nothing happens

VARIABLES st,     \* topic -> off, on, ending (its context has ended), pending (listening while the database is down)
          sent,   \* topic -> payloads the database delivered to the topic's last subscription
          sure,   \* topic -> how many of them its callback has received for sure
          slow,   \* topics whose callbacks are blocked
          told,   \* topics the database has been told to send
          link,   \* up, down
          closed,
          dirty,  \* topics nobody listened to when their notifications were sent: these may be on their way
          since,  \* notifications since the last synchronisation
          ops, n, fin
vars == <<st, sent, sure, slow, told, link, closed, dirty, since, ops, n, fin>>

On == {t \in Topics : st[t] = "on"}
Synced == \A t \in Topics : st[t] # "ending" /\ (st[t] = "on" => sure[t] = Len(sent[t]))
Quiet == slow = {}
\* for the harness: what each callback must have and may have received; the topics the database must have
Expect == [sent |-> sent', sure |-> sure', told |-> told', st |-> st']
Log(o) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, o @@ Expect) ELSE ops
Op(op, t) == [op |-> op, t |-> t, res |-> "ok", list |-> <<>>, par |-> <<>>]
Err(op, t) == [Op(op, t) EXCEPT !.res = "error"]

\* Buffers are bounded: when a callback does not return and much is on its way,
\* the answers of the database have to wait as well
Free == Quiet \/ since <= 20
Fresh(t) == st[t] = "off" /\ t \notin dirty /\ Free
Listen(t) ==
  /\ ~closed /\ link = "up" /\ Fresh(t)
  /\ st' = [st EXCEPT ![t] = "on"] /\ sent' = [sent EXCEPT ![t] = <<>>] /\ sure' = [sure EXCEPT ![t] = 0]
  /\ told' = told \cup {t} /\ UNCHANGED <<slow, link, closed, dirty, since, fin>> /\ Log(Op("Listen", t))
\* a topic has one callback at a time
ListenTwice(t) ==
  /\ ~closed /\ st[t] = "on"
  /\ UNCHANGED <<st, sent, sure, slow, told, link, closed, dirty, since, fin>> /\ Log(Err("ListenTwice", t))
\* the database refuses the topic: nothing changes
ListenRefused(t) ==
  /\ ~closed /\ link = "up" /\ Fresh(t)
  /\ UNCHANGED <<st, sent, sure, slow, told, link, closed, dirty, since, fin>> /\ Log(Err("ListenRefused", t))
\* the connection is lost while the database answers
ListenDrop(t) ==
  /\ ~closed /\ link = "up" /\ Fresh(t) /\ Synced /\ Quiet
  /\ st' = [st EXCEPT ![t] = "on"] /\ sent' = [sent EXCEPT ![t] = <<>>] /\ sure' = [sure EXCEPT ![t] = 0]
  /\ told' = told \cup {t} /\ UNCHANGED <<slow, link, closed, dirty, since, fin>> /\ Log(Op("ListenDrop", t))
ListenDown(t) ==
  /\ ~closed /\ link = "down" /\ Fresh(t)
  /\ st' = [st EXCEPT ![t] = "pending"] /\ sent' = [sent EXCEPT ![t] = <<>>] /\ sure' = [sure EXCEPT ![t] = 0]
  /\ UNCHANGED <<slow, told, link, closed, dirty, since, fin>> /\ Log(Op("ListenDown", t))
ListenClosed(t) ==
  /\ closed /\ st[t] = "off"
  /\ UNCHANGED <<st, sent, sure, slow, told, link, closed, dirty, since, fin>> /\ Log(Err("ListenClosed", t))

\* the database delivers a list of <<topic, payload>>; it may also deliver, belatedly,
\* what nobody listens to any more
Count(l, t) == SelectSeq(l, LAMBDA e : e[1] = t)
Deliver(l) == [t \in Topics |-> IF st[t] = "on" THEN sent[t] \o [k \in 1..Len(Count(l, t)) |-> Count(l, t)[k][2]] ELSE sent[t]]
Notify(l) ==
  /\ ~closed /\ link = "up" /\ l # <<>>
  /\ sent' = Deliver(l) /\ dirty' = dirty \cup {t \in Topics : st[t] # "on" /\ Count(l, t) # <<>>} /\ since' = since + Len(l)
  /\ UNCHANGED <<st, sure, slow, told, link, closed, fin>> /\ Log([Op("Notify", "") EXCEPT !.list = l])

\* the context of the topic ends
Cancel(t) ==
  /\ st[t] = "on"
  /\ st' = [st EXCEPT ![t] = IF closed THEN "off" ELSE "ending"]
  /\ UNCHANGED <<sent, sure, slow, told, link, closed, dirty, since, fin>> /\ Log(Op("Cancel", t))

\* several callers and the database at a time, each with a topic of its own
ParKinds == {"Listen", "Cancel", "Notify", "Twice"}
ParOk(p) == \A t \in DOMAIN p :
  CASE p[t] = "Listen" -> Fresh(t) [] p[t] = "Cancel" -> st[t] = "on" [] p[t] = "Notify" -> st[t] = "on" [] p[t] = "Twice" -> st[t] = "on" [] OTHER -> FALSE
Burst(t, x) == [k \in 1..5 |-> <<t, x>>]
Par(p, x) ==
  /\ ~closed /\ link = "up" /\ DOMAIN p # {} /\ ParOk(p)
  /\ st' = [t \in Topics |-> IF t \notin DOMAIN p THEN st[t] ELSE IF p[t] = "Listen" THEN "on" ELSE IF p[t] = "Cancel" THEN "ending" ELSE st[t]]
  /\ sent' = [t \in Topics |-> IF t \notin DOMAIN p THEN sent[t] ELSE IF p[t] = "Listen" THEN <<>>
                               ELSE IF p[t] = "Notify" THEN sent[t] \o [k \in 1..5 |-> x] ELSE sent[t]]
  /\ sure' = [t \in Topics |-> IF t \in DOMAIN p /\ p[t] = "Listen" THEN 0 ELSE sure[t]]
  /\ told' = told \cup {t \in DOMAIN p : p[t] = "Listen"}
  /\ since' = since + 5 * Cardinality({t \in DOMAIN p : p[t] = "Notify"})
  /\ UNCHANGED <<slow, link, closed, dirty, fin>>
  /\ Log([Op("Par", x) EXCEPT !.par = p])

\* everything on its way arrives: topics whose contexts ended are over
Sync ==
  /\ Quiet /\ ~closed /\ link = "up"
  /\ sure' = [t \in Topics |-> IF st[t] = "on" THEN Len(sent[t]) ELSE sure[t]]
  /\ st' = [t \in Topics |-> IF st[t] = "ending" THEN "off" ELSE st[t]]
  /\ told' = {t \in told : st[t] # "ending"}
  /\ dirty' = {} /\ since' = 0
  /\ UNCHANGED <<sent, slow, link, closed, fin>> /\ Log(Op("Sync", ""))
\* the connection is lost and made again: the database is told the topics again
Drop ==
  /\ ~closed /\ link = "up" /\ Synced /\ Quiet
  /\ UNCHANGED <<st, sent, sure, slow, told, link, closed, dirty, since, fin>> /\ Log(Op("Drop", ""))
Down ==
  /\ ~closed /\ link = "up" /\ Synced /\ Quiet
  /\ link' = "down" /\ told' = {} /\ UNCHANGED <<st, sent, sure, slow, closed, dirty, since, fin>> /\ Log(Op("Down", ""))
Up ==
  /\ ~closed /\ link = "down"
  /\ link' = "up" /\ st' = [t \in Topics |-> IF st[t] = "pending" THEN "on" ELSE IF st[t] = "ending" THEN "off" ELSE st[t]]
  /\ told' = {t \in Topics : st'[t] = "on"}
  /\ UNCHANGED <<sent, sure, slow, closed, dirty, since, fin>> /\ Log(Op("Up", ""))
Slow(t) ==
  /\ ~closed /\ link = "up" /\ st[t] = "on" /\ t \notin slow
  /\ slow' = slow \cup {t} /\ UNCHANGED <<st, sent, sure, told, link, closed, dirty, since, fin>> /\ Log(Op("Slow", t))
Release(t) ==
  /\ t \in slow
  /\ slow' = slow \ {t} /\ UNCHANGED <<st, sent, sure, told, link, closed, dirty, since, fin>> /\ Log(Op("Release", t))
\* nothing happens for more than a minute: that ends nothing
Idle ==
  /\ ~closed /\ n \in IdleAt
  /\ UNCHANGED <<st, sent, sure, slow, told, link, closed, dirty, since, fin>> /\ Log(Op("Idle", ""))
Close ==
  /\ ~closed /\ Quiet
  /\ closed' = TRUE /\ st' = [t \in Topics |-> "off"] /\ told' = {}
  /\ UNCHANGED <<sent, sure, slow, link, dirty, since, fin>> /\ Log(Op("Close", ""))

------------------------------------------------------------------------------
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
RandList == [k \in 1..Draw(Bursts) |-> <<RandomElement(IF n < 0 \/ k < 0 THEN {} ELSE Topics), RandomElement(IF n < 0 \/ k < 0 THEN {} ELSE Payloads)>>]
RandPar == [t \in RandomElement(IF n < 0 THEN {} ELSE SUBSET Topics) |-> IF st[t] = "off" THEN "Listen" ELSE RandomElement(IF n < 0 THEN {} ELSE {"Cancel", "Notify", "Notify", "Twice"})]
Step == \E w \in {Draw(1..30)}, t \in {Draw(Topics)}, l \in {RandList}, p \in {RandPar}, x \in {Draw(Payloads)} :
  CASE n \in IdleAt /\ ENABLED Idle -> Idle
    [] w \in 1..4 /\ ENABLED Listen(t) -> Listen(t)
    [] w = 5 /\ ENABLED ListenTwice(t) -> ListenTwice(t)
    [] w = 6 /\ ENABLED ListenRefused(t) -> ListenRefused(t)
    [] w = 7 /\ ENABLED ListenDrop(t) -> ListenDrop(t)
    [] w \in 8..9 /\ ENABLED Cancel(t) -> Cancel(t)
    [] w = 10 /\ ENABLED Slow(t) -> Slow(t)
    [] w \in 11..12 /\ ENABLED Release(t) -> Release(t)
    [] w \in 13..14 /\ ENABLED Par(p, x) -> Par(p, x)
    [] w \in 15..17 /\ ENABLED Sync -> Sync
    [] w = 18 /\ ENABLED Drop -> Drop
    [] w = 19 /\ ENABLED Down -> Down
    [] w \in 20..22 /\ ENABLED Up -> Up
    [] w \in 20..22 /\ ENABLED ListenDown(t) -> ListenDown(t)
    [] w = 23 /\ n > Depth - 6 /\ ENABLED Close -> Close
    [] closed -> IF st[t] = "off" THEN ListenClosed(t) ELSE Cancel(t)
    [] link = "down" -> IF ENABLED ListenDown(t) THEN ListenDown(t) ELSE IF st[t] = "on" /\ w = 24 THEN Cancel(t) ELSE Up
    [] OTHER -> Notify(l)
EnumStep ==
  \/ \E t \in Topics : Listen(t) \/ ListenTwice(t) \/ ListenRefused(t) \/ ListenDrop(t) \/ ListenDown(t) \/ ListenClosed(t)
                       \/ Cancel(t) \/ Slow(t) \/ Release(t)
  \/ \E t \in Topics, x \in Payloads, k \in Bursts : Notify([i \in 1..k |-> <<t, x>>])
  \/ Sync \/ Drop \/ Down \/ Up \/ Idle \/ Close
Init == /\ st = [t \in Topics |-> "off"] /\ sent = [t \in Topics |-> <<>>] /\ sure = [t \in Topics |-> 0] /\ slow = {}
        /\ told = {} /\ link = "up" /\ closed = FALSE /\ dirty = {} /\ since = 0 /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Step ELSE EnumStep)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops)))
           /\ UNCHANGED <<st, sent, sure, slow, told, link, closed, dirty, since, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeOK == /\ \A t \in Topics : st[t] \in {"off", "on", "ending", "pending"} /\ sure[t] \in 0..Len(sent[t])
          /\ told \subseteq Topics
\* the database sends what is listened to; with the connection up nothing is forgotten
Told == /\ link = "up" /\ ~closed => On \subseteq told
        /\ \A t \in told : st[t] \in {"on", "ending"}
        /\ closed => told = {}
\* nothing is taken back
Grows == [][\A t \in Topics : st[t] # "off" => /\ Len(sent'[t]) >= Len(sent[t]) /\ SubSeq(sent'[t], 1, Len(sent[t])) = sent[t]
                                              /\ sure'[t] >= sure[t]]_vars
\* after a context has ended its callback receives no later notification
Ended == [][\A t \in Topics : st[t] \in {"ending", "off"} /\ st'[t] \in {"ending", "off"} => sent'[t] = sent[t]]_vars
\* topics do not affect each other
Apart == [][\A t \in Topics : st[t] # "off" /\ sent'[t] # sent[t] => st[t] = "on"]_vars
=============================================================================
