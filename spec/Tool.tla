-------------------------------- MODULE Tool ---------------------------------
(***************************************************************************)
(* The program xdbcli as its caller sees it: what it is given (flags, the  *)
(* environment), the servers it can reach, and what it leaves: its exit    *)
(* code, its output, the logins the servers saw, the files it wrote.       *)
(*                                                                         *)
(* A run reads its arguments, picks the source (the flag, else the         *)
(* environment), connects to the database it was told to, lists, prints or *)
(* writes, and ends.  It ends well exactly when all of that succeeded.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Walk, Record

VARIABLES run,    \* the arguments and the environment of the run
          pc,     \* idle, args, source, connect, list, out
          src,    \* where the source points
          logins, \* <<server, database>> of this run
          got,    \* what was listed
          out,    \* documents printed or written
          code,   \* ok, failed
          ops, n, fin
vars == <<run, pc, src, logins, got, out, code, ops, n, fin>>

Servers == {"A", "B"}
Dbs == {"alpha", "beta", "gamma"}
T(s, nm, refs) == [s |-> s, n |-> nm, view |-> FALSE, refs |-> refs]
V(s, nm) == [s |-> s, n |-> nm, view |-> TRUE, refs |-> <<>>]
\* the databases there are, their tables and views in the order of their names; refs are places
Content(x) ==
  CASE x = <<"A", "alpha">> -> <<T("hr", "orgs", <<>>), T("hr", "zones", <<1>>), T("public", "users", <<1, 2>>), V("public", "v_users")>>
    [] x = <<"A", "beta">>  -> <<T("public", "items", <<>>)>>
    [] x = <<"B", "alpha">> -> <<T("public", "others", <<>>), T("public", "users", <<1>>), V("hr", "v_two"), V("public", "v_one")>>
    [] x = <<"B", "gamma">> -> <<T("public", "users", <<>>)>>
    [] OTHER -> <<>>
Exists(x) == x \in {<<"A", "alpha">>, <<"A", "beta">>, <<"B", "alpha">>, <<"B", "gamma">>}
Commands == {"columns", "tables", "views", "foreign-keys", "generate"}

\* the run as a function of what it is given
ArgsOk(r) == r.cmd \in Commands /\ r.db # "none" /\ ~r.bad
SourceOf(r) == IF r.flag # "none" THEN r.flag ELSE r.env
Target(r) == <<SourceOf(r), r.db>>
Informs(r) == r.cmd \in {"help", "version"}        \* these end well without a source
Passes(f, x) == f = "none" \/ x = f
Listed(r) == LET c == Content(Target(r)) IN
  CASE r.cmd = "views" -> {i \in 1..Len(c) : c[i].view /\ Passes(r.schema, c[i].s)}
    [] OTHER -> LET B == {i \in 1..Len(c) : ~c[i].view /\ Passes(r.schema, c[i].s)}
                    R(S) == S \cup UNION {{c[i].refs[k] : k \in 1..Len(c[i].refs)} : i \in S}
                IN IF r.cmd = "tables" THEN R(R(R(B))) ELSE B
KeySet(r) == LET c == Content(Target(r)) IN UNION {{<<i, c[i].refs[k]>> : k \in 1..Len(c[i].refs)} : i \in Listed(r)}
Reaches(r) == SourceOf(r) \in Servers /\ r.fault # "down"
Succeeds(r, failing) == Informs(r) \/ (ArgsOk(r) /\ Reaches(r) /\ Exists(Target(r)) /\ r.fault # "auth" /\ ~failing)
LoginOf(r) == IF ~Informs(r) /\ ArgsOk(r) /\ Reaches(r) THEN <<Target(r)>> ELSE <<>>
Names(r) == LET c == Content(Target(r)) IN {c[i].s \o "." \o c[i].n : i \in Listed(r)}
KeyNames(r) == LET c == Content(Target(r)) IN {c[k[1]].s \o "." \o c[k[1]].n \o ">" \o c[k[2]].s \o "." \o c[k[2]].n : k \in KeySet(r)}
Shown(r) == IF Informs(r) THEN {} ELSE IF r.cmd = "foreign-keys" THEN KeyNames(r) ELSE Names(r)
\* ok: when no query and no file failed (which the harness sees)
Want(r) == [ok |-> Succeeds(r, FALSE), login |-> LoginOf(r), shown |-> IF Succeeds(r, FALSE) THEN Shown(r) ELSE {}]

------------------------------------------------------------------------------
\* step by step
Begin(r) ==
  /\ pc = "idle" /\ run' = r /\ pc' = "args" /\ src' = "none" /\ logins' = <<>> /\ got' = {} /\ out' = <<>> /\ code' = "none"
  /\ n' = n + 1 /\ ops' = (IF Record THEN Append(ops, r @@ [want |-> Want(r)]) ELSE ops) /\ UNCHANGED fin
End(c) == pc' = "idle" /\ code' = c /\ UNCHANGED <<run, ops, n, fin>>
Keep == UNCHANGED <<run, code, ops, n, fin>>
Args == /\ pc = "args"
        /\ IF Informs(run) THEN End("ok") /\ out' = <<"text">> /\ UNCHANGED <<src, logins, got>>
           ELSE IF ~ArgsOk(run) THEN End("failed") /\ UNCHANGED <<src, logins, got, out>>
           ELSE pc' = "source" /\ Keep /\ UNCHANGED <<src, logins, got, out>>
Source == /\ pc = "source" /\ src' = SourceOf(run)
          /\ IF src' \in Servers THEN pc' = "connect" /\ Keep /\ UNCHANGED <<logins, got, out>>
             ELSE End("failed") /\ UNCHANGED <<logins, got, out>>
Connect == /\ pc = "connect"
           /\ IF run.fault = "down" THEN End("failed") /\ UNCHANGED <<src, logins, got, out>>
              ELSE /\ logins' = Append(logins, <<src, run.db>>)
                   /\ IF run.fault = "auth" \/ ~Exists(<<src, run.db>>) THEN End("failed") /\ UNCHANGED <<src, got, out>>
                      ELSE pc' = "list" /\ Keep /\ UNCHANGED <<src, got, out>>
List == /\ pc = "list"
        /\ IF run.fault = "query" THEN End("failed") /\ UNCHANGED <<src, logins, got, out>>
           ELSE got' = Shown(run) /\ pc' = "out" /\ Keep /\ UNCHANGED <<src, logins, out>>
\* files that can not be written; what of them is there is open
Unwritten(r) == r.fault = "disk" /\ r.cmd = "generate"
Write == /\ pc = "out"
         /\ IF Unwritten(run) THEN End("failed") /\ UNCHANGED <<src, logins, got, out>>
            ELSE out' = Append(out, got) /\ End("ok") /\ UNCHANGED <<src, logins, got>>

------------------------------------------------------------------------------
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
Rarely(x, S) == IF Draw(1..5) = 1 THEN Draw(S) ELSE x
\* generate needs something to generate
Sensible(r) == r.cmd = "generate" /\ SourceOf(r) \in Servers => (Exists(Target(r)) => Listed(r) # {})
RandRun ==
  \E c \in {Draw(Commands)}, other \in {Draw({"help", "version", "nosuch", "none"})}, k \in {Draw(1..8)} :
  \E r \in {[cmd |-> IF k = 1 THEN other ELSE c,
             flag |-> Draw({"A", "B", "A", "B", "none", "bad"} \cup (IF Draw(1..2) = 1 THEN {} ELSE {"none"})), env |-> Draw({"A", "B", "none"}),
             db |-> Rarely("alpha", {"alpha", "beta", "gamma", "none"}), inurl |-> Draw({"none", "alpha", "beta"}),
             o |-> Draw({"none", "table", "json", "yaml"}), schema |-> Rarely("none", {"public", "hr", "none"}),
             bad |-> Draw(1..12) = 1, debug |-> Draw(1..6) = 1, fault |-> Rarely("none", {"down", "auth", "query", "query", "disk"}), at |-> Draw(1..4)]} :
  IF Sensible(r) THEN Begin(r) ELSE Begin([r EXCEPT !.cmd = "tables"])
SmallRuns == {[cmd |-> c, flag |-> f, env |-> e, db |-> d, inurl |-> "none", o |-> "json", schema |-> "none", bad |-> FALSE, debug |-> FALSE, fault |-> x, at |-> 1] :
                c \in Commands \cup {"help", "version", "nosuch", "none"}, f \in {"none", "A", "bad"}, e \in {"none", "B"}, d \in {"none", "alpha", "gamma"}, x \in {"none", "down", "auth", "query", "disk"}}
             \cup {[cmd |-> c, flag |-> "B", env |-> "A", db |-> d, inurl |-> u, o |-> o, schema |-> s, bad |-> b, debug |-> FALSE, fault |-> "none", at |-> 2] :
                c \in {"columns", "tables", "views", "foreign-keys"}, d \in {"alpha", "gamma"}, u \in {"none", "beta"}, o \in {"none", "table", "json", "yaml"}, s \in {"none", "hr"}, b \in BOOLEAN}

Init == /\ run = [cmd |-> "none"] /\ pc = "idle" /\ src = "none" /\ logins = <<>> /\ got = {} /\ out = <<>> /\ code = "none"
        /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ pc = "idle" /\ ~fin /\ n < Depth /\ (IF Walk THEN RandRun ELSE \E r \in SmallRuns : Sensible(r) /\ Begin(r))
        \/ Args \/ Source \/ Connect \/ List \/ Write
        \/ /\ ~fin /\ pc = "idle" /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops)))
           /\ UNCHANGED <<run, pc, src, logins, got, out, code, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Ended == pc = "idle" /\ n > 0
\* a run ends well exactly when everything it was asked for succeeded, and says so
CodeRight == Ended => (code = "ok") = Succeeds(run, ~Informs(run) /\ (run.fault = "query" \/ Unwritten(run)))
\* it prints or writes only then, and what it was asked for
OutRight == Ended => out = (IF code # "ok" THEN <<>> ELSE IF Informs(run) THEN <<"text">> ELSE <<Shown(run)>>)
\* it logs in nowhere else
LoginRight == /\ Len(logins) <= 1
              /\ Ended => logins = LoginOf(run)
              /\ \A i \in 1..Len(logins) : logins[i] = <<IF run.flag # "none" THEN run.flag ELSE run.env, run.db>>
=============================================================================
