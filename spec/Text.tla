-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Placeholders in the text of a statement, letter by letter: every text   *)
(* over an alphabet in which only \ and ? have a meaning, and only for     *)
(* Postgres.  A statement has two texts, s before u.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Alphabet,   \* "@" is widened to text that is not ASCII
          Long, Short, \* the longest text alone, and of two texts
          Record
VARIABLES s, u, form, fin
vars == <<s, u, form, fin>>
Letters == {"\\", "?", "@", "1"}
Forms == {"one", "two", "union", "nested", "raw"}

\* from the text and the number of the next argument to the pieces of the Postgres text
RECURSIVE Pg(_, _)
Pg(t, k) == IF t = <<>> THEN <<>>
            ELSE IF t[1] = "\\" /\ Len(t) > 1 /\ t[2] = "?" THEN <<"?">> \o Pg(Tail(Tail(t)), k)
            ELSE IF t[1] = "?" THEN <<"$" \o ToString(k)>> \o Pg(Tail(t), k + 1)
            ELSE <<t[1]>> \o Pg(Tail(t), k)
RECURSIVE Holes(_)
Holes(t) == IF t = <<>> THEN 0
            ELSE IF t[1] = "\\" /\ Len(t) > 1 /\ t[2] = "?" THEN Holes(Tail(Tail(t)))
            ELSE (IF t[1] = "?" THEN 1 ELSE 0) + Holes(Tail(t))
Init == s = <<>> /\ u = <<>> /\ form \in Forms /\ fin = FALSE
Two == form \in {"two", "union", "nested"}
Next == \/ ~fin /\ u = <<>> /\ Len(s) < (IF Two THEN Short ELSE Long) /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED <<u, form, fin>>
        \/ ~fin /\ Two /\ s # <<>> /\ Len(u) < Short /\ \E c \in Alphabet : u' = Append(u, c) /\ UNCHANGED <<s, form, fin>>
        \/ ~fin /\ s # <<>> /\ (Two => u # <<>>) /\ fin' = TRUE /\ UNCHANGED <<s, u, form>>
           /\ (Record => PrintT("BEH " \o ToJson(<<[form |-> form, s |-> s, u |-> u, sp |-> Pg(s, 1), up |-> Pg(u, Holes(s) + 1), holes |-> Holes(s), more |-> Holes(u)]>>)))
Spec == Init /\ [][Next]_vars

\* every argument has its number once, in order, and nothing else changes
Numbers(q) == SelectSeq(q, LAMBDA x : Len(x) > 1)
NumberedOnce == LET q == Pg(s, 1) \o Pg(u, Holes(s) + 1) IN
  Numbers(q) = [i \in 1..(Holes(s) + Holes(u)) |-> "$" \o ToString(i)]
OtherText == LET a == SelectSeq(s, LAMBDA x : x \notin {"?", "\\"}) b == SelectSeq(Pg(s, 1), LAMBDA x : x \in Alphabet \ {"?", "\\"}) IN a = b
\* a text that has no question mark is left alone
Alone == (\A i \in DOMAIN s : s[i] # "?") => Pg(s, 1) = s
=============================================================================
