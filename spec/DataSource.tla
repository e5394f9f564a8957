----------------------------- MODULE DataSource -----------------------------
(***************************************************************************)
(* Data sources: a caller parses one, opens it, or makes a provider of it. *)
(* Opening goes through phases, each of which may fail: the value is       *)
(* resolved (plain, quoted, from a file or the environment), read as a     *)
(* URL, given the requested database, dialled, logged in to, pinged and    *)
(* possibly migrated.  Several sources are opened at a time.               *)
(*                                                                         *)
(* A URL is a record of its parts and a sequence of parameters.  What a    *)
(* driver makes of a URL (Seen) is not the library's: that it is what the  *)
(* caller asked for (Asked) is the property.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Depth, Walk, Record,
          Classes     \* classes of text: which reserved characters it has

VARIABLES cfg, pc, url, seen, socks, ops, n, fin
vars == <<cfg, pc, url, seen, socks, ops, n, fin>>

None == "none"
Drivers == {"postgres", "sqlserver"}
Unsupported == {"mysql", "postgresql", "http", ""}
Ops == {"Parse", "Open", "New", "Migrate"}
\* how the value is given: as it is, in quotes or white space, in a file or a variable, or not at all
Wraps == {"plain", "quoted", "spaced", "file", "filenl", "filequoted", "env", "envquoted"}
Missing == {"nofile", "noenv"}
BadURLs == {"badport", "badescape", "noscheme", "control"}
Faults == {"none", "refused", "drop", "garbage", "auth", "nodb", "ping"}
DbNames == {"dbname", "database", "Database", "DATABASE"}
DbParams(d) == IF d = "sqlserver" THEN {"database", "Database", "DATABASE"} ELSE {"dbname"}

\* a configuration: what the caller was given and what he asks for
Base == [op |-> "Open", driver |-> "postgres", wrap |-> "plain", style |-> "min",
         user |-> "plain", pwd |-> "plain",     \* classes of text, or none
         path |-> None,                         \* postgres: a database; SQL Server: an instance
         dbkey |-> None, dbval |-> None, dbfirst |-> FALSE,  \* the parameter that names a database
         app |-> None, extra |-> None,          \* two more parameters
         want |-> None, fault |-> "none"]
Valid(c) ==
  /\ (c.dbkey = None) = (c.dbval = None)
  /\ c.driver \in Drivers /\ c.dbkey # None => c.dbkey \in DbParams(c.driver)
  /\ c.driver \notin Drivers => c.dbkey = None
  \* a source that names two databases says nothing, unless another is requested
  /\ c.driver = "postgres" /\ c.path # None /\ c.dbkey # None => c.want # None
  /\ c.wrap \in Missing \cup BadURLs => c.fault = "none"
  /\ c.driver \notin Drivers => c.fault = "none" /\ c.op # "Parse"
  /\ c.op = "Parse" => c.want = None /\ c.fault = "none"
  /\ c.op = "Migrate" => c.driver = "postgres" /\ c.fault = "none"
  \* without a user SQL Server drivers use the system's
  /\ c.driver = "sqlserver" => c.user \notin {None, "backslash"}
  /\ c.driver = "sqlserver" => c.path \in {None, "plain", "space", "percent", "unicode", "plus"}   \* an instance
  /\ c.user = None => c.pwd = None
  \* SQL Server refuses a login by the database only when one is named
  /\ c.fault = "nodb" => c.want # None
  \* the parts of a URL carry every text, white space at the ends of the value does not
  /\ c.wrap \in BadURLs => c.want \in {None, "plain"}

\* a text: its role and its class, so that no two parts of a URL are the same
T(role, class) == IF class = None THEN None ELSE role \o "-" \o class
Lower(k) == IF k \in {"database", "Database", "DATABASE"} THEN "database" ELSE k
Query(c) == LET db == IF c.dbkey = None THEN <<>> ELSE << <<c.dbkey, T("dv", c.dbval)>> >>
                tls == IF c.driver = "sqlserver" THEN << <<"encrypt", "disable">> >> ELSE << <<"sslmode", "disable">> >>
                app == IF c.app = None THEN <<>> ELSE << <<"app", T("ap", c.app)>> >>
                ext == IF c.extra = None THEN <<>> ELSE << <<"extra", T("ex", c.extra)>> >>
            IN  IF c.dbfirst THEN db \o tls \o app \o ext ELSE app \o tls \o ext \o db
Given(c) == [driver |-> c.driver, user |-> T("us", c.user), pwd |-> T("pw", c.pwd), path |-> T("pa", c.path), q |-> Query(c)]
Want(c) == T("wa", c.want)

\* the database that the URL names, as the driver reads it
Last(u, names) == LET is == {k \in 1..Len(u.q) : Lower(u.q[k][1]) \in names}
                  IN  IF is = {} THEN None ELSE u.q[CHOOSE k \in is : \A m \in is : m <= k][2]
DbOf(u) == IF u.driver = "sqlserver" THEN Last(u, {"database"})
           ELSE IF Last(u, {"dbname"}) # None THEN Last(u, {"dbname"}) ELSE u.path
\* names in doubt: two parameters, or a path and a parameter
Doubtful(u) == LET is == {k \in 1..Len(u.q) : Lower(u.q[k][1]) \in {"database", "dbname"}}
               IN  Cardinality(is) > 1 \/ (u.driver = "postgres" /\ u.path # None /\ is # {})
Others(u) == SelectSeq(u.q, LAMBDA e : Lower(e[1]) \notin {"database", "dbname"})
Seen(u) == [user |-> u.user, pwd |-> u.pwd, db |-> DbOf(u), others |-> {Others(u)[k] : k \in 1..Len(Others(u))}]
Asked(c) == [Seen(Given(c)) EXCEPT !.db = IF c.want # None THEN Want(c) ELSE @]

\* the URL with the requested database
DbKey(d) == IF d = "sqlserver" THEN "database" ELSE "dbname"
Compose(c) == LET u == Given(c)
              IN  IF c.want = None THEN u
                  ELSE [u EXCEPT !.q = Append(Others(u), <<DbKey(u.driver), Want(c)>>),
                                 !.path = IF u.driver = "postgres" THEN None ELSE @]

------------------------------------------------------------------------------
Idle == [op |-> "", res |-> ""]
Event(i, o, r, u) == [op |-> o, slot |-> i, res |-> r, cfg |-> cfg[i], given |-> Given(cfg[i]), want |-> Want(cfg[i]), asked |-> u]
NoLogin == [user |-> None, pwd |-> None, db |-> None, others |-> {}]
Emit(e) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, e) ELSE ops

Start(i, c) == /\ pc[i] = "idle" /\ Valid(c)
               /\ cfg' = [cfg EXCEPT ![i] = c] /\ pc' = [pc EXCEPT ![i] = "resolve"]
               /\ UNCHANGED <<url, seen, socks, ops, n, fin>>
Go(i, p) == pc' = [pc EXCEPT ![i] = p] /\ UNCHANGED <<cfg, ops, n, fin>>
Fail(i) == /\ pc' = [pc EXCEPT ![i] = "idle"] /\ socks' = [socks EXCEPT ![i] = 0]
           /\ UNCHANGED <<cfg, url, seen, fin>> /\ Emit(Event(i, cfg[i].op, "error", NoLogin))
Done(i, p) == /\ pc' = [pc EXCEPT ![i] = p] /\ UNCHANGED <<cfg, url, seen, socks, fin>>
              /\ Emit(Event(i, cfg[i].op, "ok", Asked(cfg[i])))
Phase(i) ==
  LET c == cfg[i] IN
  CASE pc[i] = "resolve" -> IF c.wrap \in Missing THEN Fail(i) ELSE Go(i, "parse") /\ UNCHANGED <<url, seen, socks>>
    [] pc[i] = "parse" -> IF c.wrap \in BadURLs THEN Fail(i)
                          ELSE IF c.op = "Parse" THEN Done(i, "idle")
                          ELSE Go(i, "compose") /\ UNCHANGED <<url, seen, socks>>
    [] pc[i] = "compose" -> IF c.driver \notin Drivers THEN Fail(i)
                            ELSE Go(i, "dial") /\ url' = [url EXCEPT ![i] = Compose(c)] /\ UNCHANGED <<seen, socks>>
    [] pc[i] = "dial" -> IF c.fault = "refused" THEN Fail(i)
                         ELSE Go(i, "login") /\ socks' = [socks EXCEPT ![i] = 1] /\ UNCHANGED <<url, seen>>
    [] pc[i] = "login" -> IF c.fault \in {"drop", "garbage", "auth", "nodb"} THEN Fail(i)
                          ELSE Go(i, "ping") /\ seen' = [seen EXCEPT ![i] = Seen(url[i])] /\ UNCHANGED <<url, socks>>
    [] pc[i] = "ping" -> IF c.fault = "ping" THEN Fail(i)
                         ELSE IF c.op = "Migrate" THEN Go(i, "migrate") /\ UNCHANGED <<url, seen, socks>>
                         ELSE Done(i, "open")
    [] pc[i] = "migrate" -> Fail(i)    \* only failing migrations here: the rest is in Migrate.tla
    [] OTHER -> FALSE
\* more connections of the pool log in the same way
Use(i) == /\ pc[i] = "open" /\ socks' = [socks EXCEPT ![i] = 2] /\ seen' = [seen EXCEPT ![i] = Seen(url[i])]
          /\ UNCHANGED <<cfg, pc, url, fin>> /\ Emit(Event(i, "Use", "ok", Asked(cfg[i])))
Close(i) == /\ pc[i] = "open" /\ socks' = [socks EXCEPT ![i] = 0] /\ pc' = [pc EXCEPT ![i] = "idle"]
            /\ UNCHANGED <<cfg, url, seen, fin>> /\ Emit(Event(i, "Close", "ok", NoLogin))

------------------------------------------------------------------------------
Opt == Classes \cup {None}
\* everything about the database; everything about the credentials; every fault; every wrapping
EnumCfgs ==
  LET b(d, o) == [Base EXCEPT !.driver = d, !.op = o] IN
  UNION {{[b(d, o) EXCEPT !.want = w, !.path = p, !.dbkey = k, !.dbval = v, !.dbfirst = f, !.style = s] :
            w \in Opt, p \in {None, "plain", "space"}, k \in {None} \cup DbParams(d), v \in {None, "plain", "amp"}, f \in BOOLEAN, s \in {"min", "full"}} :
            d \in Drivers, o \in {"Open"}}
  \cup UNION {{[b(d, o) EXCEPT !.path = p, !.dbkey = k, !.dbval = v, !.dbfirst = f] :
            p \in Opt, k \in {None} \cup DbParams(d), v \in Opt, f \in BOOLEAN} : d \in Drivers, o \in {"Parse"}}
  \cup UNION {{[b(d, o) EXCEPT !.user = u, !.pwd = p, !.want = w] : u \in Opt, p \in Opt, w \in {None, "amp"}} : d \in Drivers, o \in {"Parse", "New"}}
  \cup UNION {{[b(d, o) EXCEPT !.app = a, !.extra = e, !.want = w, !.style = s] :
            a \in Opt, e \in Opt, w \in {None, "plus"}, s \in {"min", "full"}} : d \in Drivers, o \in {"Parse", "New"}}
  \cup UNION {{[b(d, o) EXCEPT !.wrap = x, !.want = w, !.fault = f] :
            x \in Wraps \cup Missing \cup BadURLs, w \in {None, "plain"}, f \in Faults} : d \in Drivers \cup Unsupported, o \in Ops}

Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
Seldom(A, B) == IF Draw(1..4) = 1 THEN Draw(A) ELSE Draw(B)
DrawCfg ==
  LET d == Seldom(Unsupported \cup Drivers, Drivers) IN
  [op |-> Draw(Ops), driver |-> d, wrap |-> Seldom(Wraps \cup Missing \cup BadURLs, Wraps), style |-> Draw({"min", "full"}),
   user |-> Seldom(Opt, Classes), pwd |-> Draw(Opt), path |-> Draw(Opt),
   dbkey |-> Draw({None} \cup DbNames), dbval |-> Draw(Opt), dbfirst |-> Draw(BOOLEAN),
   app |-> Draw(Opt), extra |-> Draw(Opt), want |-> Seldom({None}, Classes), fault |-> Seldom(Faults, {"none"})]
\* the nearest valid configuration
Mend(c0) ==
  LET c1 == IF c0.driver \notin Drivers THEN [c0 EXCEPT !.fault = "none", !.dbkey = None, !.dbval = None, !.op = IF @ \in {"Parse", "Migrate"} THEN "Open" ELSE @] ELSE c0
      c2 == IF c1.wrap \in Missing \cup BadURLs THEN [c1 EXCEPT !.fault = "none", !.want = IF @ = None THEN None ELSE "plain"] ELSE c1
      c3 == IF c2.op = "Parse" THEN [c2 EXCEPT !.want = None, !.fault = "none"] ELSE c2
      c4 == IF c3.op = "Migrate" THEN [c3 EXCEPT !.driver = "postgres", !.fault = "none"] ELSE c3
      c5 == IF c4.dbval = None \/ c4.dbkey \notin DbParams(c4.driver) \/ (c4.driver = "postgres" /\ c4.path # None /\ c4.want = None)
            THEN [c4 EXCEPT !.dbkey = None, !.dbval = None] ELSE c4
      c6 == IF c5.driver = "sqlserver" /\ c5.user \in {None, "backslash"} THEN [c5 EXCEPT !.user = "plain"] ELSE c5
      c7 == IF c6.user = None THEN [c6 EXCEPT !.pwd = None] ELSE c6
      c8 == IF c7.driver = "sqlserver" /\ c7.path \notin {None, "plain", "space", "percent", "unicode", "plus"} THEN [c7 EXCEPT !.path = None] ELSE c7
  IN  IF c8.fault = "nodb" /\ c8.want = None THEN [c8 EXCEPT !.fault = "auth"] ELSE c8
Step == \E i \in {Draw(Slots)}, c \in {Mend(DrawCfg)}, w \in {Draw(1..3)} :
  CASE pc[i] = "idle" -> Start(i, c)
    [] pc[i] = "open" /\ w = 1 -> Close(i)
    [] pc[i] = "open" -> Use(i)
    [] OTHER -> Phase(i)
EnumStep == \E i \in Slots : Phase(i) \/ Use(i) \/ Close(i) \/ (n < 1 /\ pc[i] = "idle" /\ \E c \in EnumCfgs : Start(i, c))
Init == /\ cfg = [i \in Slots |-> Base] /\ pc = [i \in Slots |-> "idle"] /\ url = [i \in Slots |-> Given(Base)]
        /\ seen = [i \in Slots |-> NoLogin] /\ socks = [i \in Slots |-> 0] /\ ops = <<>> /\ n = 0 /\ fin = FALSE
\* a short history ends when nothing is open; in a long one the harness closes the rest
Over == IF Walk THEN n >= Depth ELSE n >= 1 /\ (n >= Depth \/ \A i \in Slots : pc[i] = "idle")
Next == \/ ~fin /\ ~Over /\ (IF Walk THEN Step ELSE EnumStep)
        \/ ~fin /\ Over /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<cfg, pc, url, seen, socks, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* the connection is to what was asked for
AsAsked == \A i \in Slots : pc[i] \in {"ping", "migrate", "open"} => seen[i] = Asked(cfg[i]) /\ ~Doubtful(url[i])
\* the URL handed to the driver says the same, with nothing lost or added
Kept == \A i \in Slots : pc[i] \in {"dial", "login", "ping", "migrate", "open"} =>
          /\ Seen(url[i]) = Asked(cfg[i]) /\ url[i].driver = cfg[i].driver
          /\ url[i].driver = "sqlserver" => url[i].path = Given(cfg[i]).path
\* nothing is open but what was opened
NothingLeft == \A i \in Slots : pc[i] = "idle" => socks[i] = 0
=============================================================================
