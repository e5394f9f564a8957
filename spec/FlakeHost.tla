----------------------------- MODULE FlakeHost -----------------------------
(* Where the machine id of a generator comes from when the settings give none:
   the low 16 bits of an address of the host that is not a loopback address.
   Hosts gain and lose addresses, generators are made and draw IDs; a generator
   keeps the machine id it began with. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nets, Hosts, MaxAddrs, MaxGens, MaxLen, Record
VARIABLES addrs, gens, hist, fin
vars == <<addrs, gens, hist, fin>>

\* the low 16 bits of an address: its last two bytes
Pairs == {<<0, 1>>, <<0, 200>>, <<1, 0>>, <<2, 3>>, <<3, 2>>, <<127, 0>>, <<128, 129>>, <<255, 254>>}
All == {[net |-> n, a |-> h[1], b |-> h[2]] : n \in Nets, h \in Hosts}
Low16(x) == x.a * 256 + x.b
Allowed(as) == {Low16(x) : x \in as}

\* hosts of one network of 16 bits with different addresses never share a machine id
ASSUME \A x, y \in All : x.net = y.net /\ x # y => Low16(x) # Low16(y)

Log(r) == hist' = Append(hist, r)
Init == addrs = {} /\ gens = <<>> /\ hist = <<>> /\ fin = FALSE
Add == /\ Cardinality(addrs) < MaxAddrs
       /\ \E x \in All \ addrs : addrs' = addrs \cup {x} /\ Log([op |-> "Add", net |-> x.net, a |-> x.a, b |-> x.b])
       /\ UNCHANGED gens
Del == \E x \in addrs : addrs' = addrs \ {x} /\ Log([op |-> "Del", net |-> x.net, a |-> x.a, b |-> x.b]) /\ UNCHANGED gens
\* with no address at all a generator still is made; which machine id it has is not said
Make == /\ Len(gens) < MaxGens
        /\ gens' = Append(gens, [ids |-> Allowed(addrs), any |-> addrs = {}])
        /\ Log([op |-> "Make", ids |-> Allowed(addrs), any |-> addrs = {}])
        /\ UNCHANGED addrs
Draw == \E g \in DOMAIN gens : /\ Log([op |-> "Draw", g |-> g, ids |-> gens[g].ids, any |-> gens[g].any]) /\ UNCHANGED <<addrs, gens>>
Step == ~fin /\ Len(hist) < MaxLen /\ (Add \/ Del \/ Make \/ Draw) /\ UNCHANGED fin
Emit == /\ ~fin /\ Len(hist) = MaxLen /\ gens # <<>> /\ fin' = TRUE /\ UNCHANGED <<addrs, gens, hist>>
        /\ (Record => PrintT("BEH " \o ToJson(hist)))
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

Bits == \A g \in DOMAIN gens : gens[g].ids \subseteq 0..65535
\* one address settles the machine id
Settled == \A g \in DOMAIN gens : ~gens[g].any => gens[g].ids # {}
\* what a generator may be called never changes
Keeps == [][\A g \in DOMAIN gens : gens'[g] = gens[g]]_vars
=============================================================================
