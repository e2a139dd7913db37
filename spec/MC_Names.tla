----------------------------- MODULE MC_Names -----------------------------
(* Names of key types, curves and roles: every registered name, and every   *)
(* text within one edit of it (a character left out, doubled, replaced by   *)
(* one of a few, its case changed, two neighbours exchanged), every prefix  *)
(* and suffix, and every pair of names run together.                        *)
EXTENDS KeyTypes, Json

VARIABLES what, text, known
vars == <<what, text, known>>

Roles == {"user", "User", "host", "Host"}
Names == [kt |-> {A(k.name) : k \in KeyTypes}, curve |-> CurveBytes, role |-> {A(x) : x \in Roles}]
Flip(c) == IF c \in 65..90 THEN c + 32 ELSE IF c \in 97..122 THEN c - 32 ELSE c
Cut(t, i) == Take(t, i - 1) \o Drop(t, i)
Edited(t) == {Cut(t, i) : i \in 1..Len(t)} \cup {Take(t, i) \o <<t[i]>> \o Drop(t, i) : i \in 1..Len(t)}
             \cup {[t EXCEPT ![i] = Flip(@)] : i \in 1..Len(t)}
             \cup UNION {{[t EXCEPT ![i] = x], Take(t, i - 1) \o <<x>> \o Drop(t, i - 1)} : i \in 1..Len(t), x \in {0, 32, 45, 49, 95, 101}}
             \cup {Take(t, i - 1) \o <<t[i + 1], t[i]>> \o Drop(t, i + 1) : i \in 1..(Len(t) - 1)}
             \cup {Take(t, i) : i \in 0..Len(t)} \cup {Drop(t, i) : i \in 0..Len(t)}
             \cup {t \o <<x>> : x \in {0, 9, 10, 32, 44, 64}} \cup {<<32>> \o t}
             \cup {[i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]}
Near(w) == UNION {Edited(t) : t \in Names[w]} \cup {x \o y : x, y \in Names[w]}
Init == /\ what \in {"kt", "curve", "role"} /\ text = <<>> /\ known = 0
Ask == /\ known = 0
       /\ \E t \in Names[what] \cup Near(what) :
            /\ text' = t
            /\ known' = IF t \in Names[what] THEN 1 ELSE 2
            /\ PrintT("SCEN " \o ToJson([w |-> what, t |-> t, ok |-> known' = 1]))
       /\ UNCHANGED what
Next == Ask
Spec == Init /\ [][Next]_vars

(* ---- C24 ---- *)
\* a name is recognised exactly when it is registered, to the letter
Recognised == known # 0 =>
  (known = 1) = CASE what = "kt" -> Kt(text) # NoKt [] what = "curve" -> text \in CurveBytes [] OTHER -> text \in Names.role
\* plain and certificate names are inverse to each other, and keep the family
OneToOne == known = 1 /\ what = "kt" =>
  LET k == Kt(text)  c == CertKtOf(k)  q == PlainKtOf(k) IN
  /\ c.cert /\ ~q.cert /\ c.fam = k.fam /\ q.fam = k.fam /\ c.sk = k.sk /\ q.sk = k.sk
  /\ CertKtOf(q) = c /\ PlainKtOf(c) = q /\ CertKtOf(c) = c /\ PlainKtOf(q) = q
  /\ (k.cert => k = c)
  /\ (CurveOf(k) # <<>>) = (k.fam = "ecdsa") /\ CurveOf(k) = CurveOf(c)
=============================================================================
