----------------------------- MODULE MC_Fresh -----------------------------
(* Several threads make certificates and keys, copy, change, sign and       *)
(* re-import certificates.  Randomness is a source that never gives the     *)
(* same value twice.  Every history of Ops steps becomes a scenario.        *)
EXTENDS Memory, Json

CONSTANTS Ops, Threads, Fields

VARIABLES drawn,    \* how many values the source has given
          certs,    \* [nonce, serial, origin, signed]
          pairs,    \* generated keys: [seed, check]
          hist
vars == <<drawn, certs, pairs, hist>>

Room == Len(hist) < Ops
Did(t, a, x) == hist' = Append(hist, [t |-> t, a |-> a] @@ x)
\* one thread, or two at the very same time
Who == Threads \cup {0}
Init == drawn = 0 /\ certs = <<>> /\ pairs = <<>> /\ hist = <<>>
Born(k) == [nonce |-> k + 1, serial |-> k + 2, origin |-> Len(certs) + 1, signed |-> 0]
NewCert == /\ Room
           /\ \E t \in Who :
                /\ drawn' = drawn + (IF t = 0 THEN 4 ELSE 2)
                /\ certs' = IF t = 0 THEN certs \o <<Born(drawn), [Born(drawn + 2) EXCEPT !.origin = @ + 1]>> ELSE Append(certs, Born(drawn))
                /\ Did(t, "cert", [x |-> 0])
           /\ UNCHANGED pairs
Generate == /\ Room
            /\ \E t \in Who :
                 /\ drawn' = drawn + (IF t = 0 THEN 4 ELSE 2)
                 /\ pairs' = pairs \o [i \in 1..(IF t = 0 THEN 2 ELSE 1) |-> [seed |-> drawn + 2 * i - 1, check |-> drawn + 2 * i]]
                 /\ Did(t, "key", [x |-> 0])
            /\ UNCHANGED certs
Change == /\ Room
          /\ \E t \in Threads, i \in 1..Len(certs), f \in Fields :
               /\ certs' = IF f = "serial" THEN [certs EXCEPT ![i].serial = 0] ELSE certs
               /\ Did(t, "set", [x |-> i, f |-> f])
          /\ UNCHANGED <<drawn, pairs>>
Sign == /\ Room
        /\ \E t \in Threads, i \in 1..Len(certs) :
             /\ certs' = [certs EXCEPT ![i].signed = @ + 1]
             /\ Did(t, "sign", [x |-> i])
        /\ UNCHANGED <<drawn, pairs>>
Copy == /\ Room
        /\ \E t \in Threads, i \in 1..Len(certs) :
             /\ certs' = Append(certs, certs[i])
             /\ Did(t, "copy", [x |-> i])
        /\ UNCHANGED <<drawn, pairs>>
Import == /\ Room
          /\ \E t \in Threads, i \in 1..Len(certs) :
               /\ certs[i].signed > 0
               /\ certs' = Append(certs, certs[i])
               /\ Did(t, "import", [x |-> i])
          /\ UNCHANGED <<drawn, pairs>>
Next == NewCert \/ Generate \/ Change \/ Sign \/ Copy \/ Import
Spec == Init /\ [][Next]_vars

(* ---- C25 ---- *)
Origin(i) == certs[certs[i].origin]
\* the nonce is that of the certificate it came from, for ever
Steady == \A i \in 1..Len(certs) : certs[i].nonce = Origin(i).nonce
SteadyStep == [][\A i \in 1..Len(certs) : certs'[i].nonce = certs[i].nonce]_vars
Drawn == {certs[i].nonce : i \in 1..Len(certs)} \cup ({certs[i].serial : i \in 1..Len(certs)} \ {0})
         \cup {pairs[i].seed : i \in 1..Len(pairs)} \cup {pairs[i].check : i \in 1..Len(pairs)}
Fresh == /\ \A i, j \in 1..Len(certs) : certs[i].nonce = certs[j].nonce => certs[i].origin = certs[j].origin
         /\ \A i, j \in 1..Len(pairs) : i # j => {pairs[i].seed, pairs[i].check} \cap {pairs[j].seed, pairs[j].check} = {}
         /\ \A i \in 1..Len(certs), j \in 1..Len(pairs) : certs[i].nonce \notin {pairs[j].seed, pairs[j].check}
Counted == Cardinality(Drawn) <= drawn
Scenario == Len(hist) = Ops => PrintT("SCEN " \o ToJson(hist))
=============================================================================
