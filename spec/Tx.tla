--------------------------------- MODULE Tx ---------------------------------
(***************************************************************************)
(* Transactions of providers.  Parents share one database; a transaction   *)
(* provider begun from a parent buffers its writes until it is committed.  *)
(* Writes are numbered.  Failures are injected by the database (fault),    *)
(* by a context that has ended (ctx) or by cancelling the context a        *)
(* transaction was begun with.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Parents, MaxTx, MaxWrites, Opts, Faults, ReadHows, ExecHows, Depth, Record, Walk

VARIABLES closed,    \* parents that were closed
          tx,        \* the transactions begun: parent, state, buf, opts
          committed, \* visible writes
          nw, ops, fin
vars == <<closed, tx, committed, nw, ops, fin>>

Txs == 1..Len(tx)
Active(t) == tx[t].st = "active"
Log(o, res) == ops' = IF Record THEN Append(ops, [o EXCEPT !.res = res] @@ [committed |-> committed', begun |-> Len(tx'), active |-> Cardinality({t \in 1..Len(tx') : tx'[t].st = "active"})]) ELSE ops
Op(op, by, t) == [op |-> op, by |-> by, t |-> t, res |-> "ok", how |-> "", fault |-> "none", opts |-> "none", seen |-> {}, write |-> 0]

\* by: a parent, t = 0, or a transaction, by = its parent and t its number
ExecParent(p, how, fault) ==
  LET o == [Op("Exec", p, 0) EXCEPT !.how = how, !.fault = fault, !.write = nw + 1] IN
  /\ nw < MaxWrites /\ nw' = nw + 1
  /\ LET ok == p \notin closed /\ fault = "none" IN
     committed' = (IF ok THEN committed \cup {nw + 1} ELSE committed) /\ UNCHANGED <<closed, tx, fin>> /\ Log(o, IF ok THEN "ok" ELSE "err")
ExecTx(t, how, fault) ==
  LET o == [Op("Exec", tx[t].parent, t) EXCEPT !.how = how, !.fault = fault, !.write = nw + 1] IN
  /\ nw < MaxWrites /\ nw' = nw + 1
  /\ LET ok == Active(t) /\ fault = "none" IN
     tx' = (IF ok THEN [tx EXCEPT ![t].buf = @ \cup {nw + 1}] ELSE tx) /\ UNCHANGED <<closed, committed, fin>> /\ Log(o, IF ok THEN "ok" ELSE "err")
ReadParent(p, how) ==
  /\ UNCHANGED <<closed, tx, committed, nw, fin>>
  /\ LET ok == p \notin closed IN Log([Op("Read", p, 0) EXCEPT !.how = how, !.seen = IF ok THEN committed ELSE {}], IF ok THEN "ok" ELSE "err")
ReadTx(t, how) ==
  /\ UNCHANGED <<closed, tx, committed, nw, fin>>
  /\ LET ok == Active(t) IN Log([Op("Read", tx[t].parent, t) EXCEPT !.how = how, !.seen = IF ok THEN committed \cup tx[t].buf ELSE {}], IF ok THEN "ok" ELSE "err")
Begin(p, opts, fault) ==
  /\ Len(tx) < MaxTx
  /\ LET ok == p \notin closed /\ fault = "none" IN
     /\ tx' = IF ok THEN Append(tx, [parent |-> p, st |-> "active", buf |-> {}, all |-> {}]) ELSE tx
     /\ UNCHANGED <<closed, committed, nw, fin>>
     /\ Log([Op("Begin", p, 0) EXCEPT !.opts = opts, !.fault = fault], IF ok THEN "ok" ELSE "err")
\* refused: no nesting
BeginTx(t) == UNCHANGED <<closed, tx, committed, nw, fin>> /\ Log(Op("Begin", tx[t].parent, t), "err")
FinishParent(p, op) == UNCHANGED <<closed, tx, committed, nw, fin>> /\ Log(Op(op, p, 0), "err")
Commit(t, fault) ==
  /\ UNCHANGED <<closed, nw, fin>>
  /\ LET ok == Active(t) /\ fault = "none" IN
     /\ committed' = IF ok THEN committed \cup tx[t].buf ELSE committed
     /\ tx' = IF Active(t) THEN [tx EXCEPT ![t].st = IF ok THEN "committed" ELSE "failed", ![t].all = tx[t].buf, ![t].buf = {}] ELSE tx
     /\ Log([Op("Commit", tx[t].parent, t) EXCEPT !.fault = fault], IF ok THEN "ok" ELSE "err")
\* Rollback, Close and cancelling: the second time there is nothing to do
Drop(t, op, fault) ==
  /\ UNCHANGED <<closed, committed, nw, fin>>
  /\ tx' = IF Active(t) THEN [tx EXCEPT ![t].st = "dropped", ![t].all = tx[t].buf, ![t].buf = {}] ELSE tx
  /\ Log([Op(op, tx[t].parent, t) EXCEPT !.fault = fault], IF Active(t) /\ fault = "fault" THEN "err" ELSE "ok")
CloseParent(p) ==
  /\ \A t \in Txs : tx[t].parent = p => ~Active(t)
  /\ closed' = closed \cup {p} /\ UNCHANGED <<tx, committed, nw, fin>> /\ Log(Op("Close", p, 0), "ok")

Init == closed = {} /\ tx = <<>> /\ committed = {} /\ nw = 0 /\ ops = <<>> /\ fin = FALSE
Do(k) ==
  \/ k = "PExec" /\ \E p \in Parents, h \in ExecHows, f \in Faults : ExecParent(p, h, f)
  \/ k = "PRead" /\ \E p \in Parents, h \in ReadHows : ReadParent(p, h)
  \/ k = "PBegin" /\ \E p \in Parents, o \in Opts, f \in Faults : Begin(p, o, f)
  \/ k = "PFinish" /\ \E p \in Parents, op \in {"Commit", "Rollback"} : FinishParent(p, op)
  \/ k = "PClose" /\ \E p \in Parents : CloseParent(p)
  \/ k = "TExec" /\ \E t \in Txs, h \in ExecHows, f \in Faults : ExecTx(t, h, f)
  \/ k = "TRead" /\ \E t \in Txs, h \in ReadHows : ReadTx(t, h)
  \/ k = "TBegin" /\ \E t \in Txs : BeginTx(t)
  \/ k = "TCommit" /\ \E t \in Txs, f \in Faults \ {"ctx"} : Commit(t, f)
  \/ k = "TDrop" /\ \E t \in Txs, f \in Faults \ {"ctx"}, op \in {"Rollback", "Close"} : Drop(t, op, f)
  \/ k = "TCancel" /\ \E t \in Txs : Drop(t, "Cancel", "none")
Kinds == {"PExec", "PRead", "PBegin", "PFinish", "PClose", "TExec", "TRead", "TBegin", "TCommit", "TDrop", "TCancel"}
\* a walk draws the kind first, among those that can be done
Weights == <<"PExec", "PRead", "PBegin", "PBegin", "PFinish", "TExec", "TExec", "TExec", "TExec", "TRead", "TRead", "TBegin", "TCommit", "TCommit", "TDrop", "TDrop", "TCancel", "PClose">>
Can(i) == LET k == Weights[i] IN
          /\ k \in {"PExec", "TExec"} => nw < MaxWrites
          /\ k = "PBegin" => Len(tx) < MaxTx
          /\ k \in {"TExec", "TRead", "TBegin", "TCommit", "TDrop", "TCancel"} => Len(tx) > 0
          /\ k = "PClose" => Len(ops) > Depth \div 2 /\ \A t \in Txs : ~Active(t)
Pick == {Weights[RandomElement({i \in 1..Len(Weights) : Can(i)})]}
Next ==
  \/ /\ ~fin /\ (Record => Len(ops) < Depth) /\ \E k \in (IF Walk THEN Pick ELSE Kinds) : Do(k)
  \/ /\ Record /\ ~fin /\ Len(ops) = Depth /\ fin' = TRUE /\ PrintT("BEH " \o ToJson(ops)) /\ UNCHANGED <<closed, tx, committed, nw, ops>>
Spec == Init /\ [][Next]_vars

\* all of a committed transaction is visible and nothing of any other
Atomic == \A t \in Txs : /\ tx[t].st = "committed" => tx[t].all \subseteq committed
                         /\ tx[t].st \in {"failed", "dropped"} => tx[t].all \cap committed = {}
                         /\ tx[t].buf \cap committed = {}
                         /\ ~Active(t) => tx[t].buf = {}
Confined == \A t, u \in Txs : t # u => (tx[t].buf \cup tx[t].all) \cap (tx[u].buf \cup tx[u].all) = {}
Monotone == [][committed \subseteq committed']_vars
\* visible writes change only by a parent's write or a commit
ByCommit == [][committed' # committed => \/ \E t \in Txs : tx[t].st = "active" /\ tx'[t].st = "committed" /\ committed' = committed \cup tx[t].buf
                                         \/ committed' = committed \cup {nw'} /\ tx' = tx]_vars
=============================================================================
