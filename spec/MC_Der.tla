------------------------------ MODULE MC_Der ------------------------------
(* ECDSA signatures in DER: every string of up to N octets from a small     *)
(* alphabet, and pairs of numbers of the sizes that occur with something    *)
(* changed, against the form a signature is written in.                     *)
EXTENDS Der, Json

CONSTANTS N, Kinds
Symbols == {48, 2, 0, 1, 3}

VARIABLES str, done
vars == <<str, done>>

Sizes == {0, 1, 2, 31, 32, 33, 48, 49, 66, 120, 123}
Number(n, b) == [i \in 1..n |-> IF i = 1 THEN b ELSE 255 - (i % 250)]
Tlv(t, l, v) == <<t, l>> \o v
\* what is changed about the signature of r and s
Shaped(r, s, k) ==
  LET x == Len(r)  y == Len(s)
      rr == CASE k = "r tag" -> Tlv(3, x, r) [] k = "r long" -> Tlv(2, x + 1, r) [] k = "r short" -> IF x = 0 THEN Tlv(2, 1, r) ELSE Tlv(2, x - 1, r)
              [] k = "r huge" -> Tlv(2, 255, r) [] k = "r form" -> <<2, 129, x>> \o r [] OTHER -> Tlv(2, x, r)
      ss == CASE k = "s tag" -> Tlv(4, y, s) [] k = "s long" -> Tlv(2, y + 1, s) [] k = "s short" -> IF y = 0 THEN Tlv(2, 1, s) ELSE Tlv(2, y - 1, s)
              [] k = "s huge" -> Tlv(2, 255, s) [] k = "s form" -> <<2, 129, y>> \o s [] k = "no s" -> <<>> [] OTHER -> Tlv(2, y, s)
      body == rr \o ss
      whole == CASE k = "tag" -> Tlv(49, Len(body) % 256, body) [] k = "len long" -> Tlv(48, (Len(body) + 1) % 256, body)
                 [] k = "len short" -> Tlv(48, (Len(body) - 1) % 256, body) [] k = "len 0" -> Tlv(48, 0, body) [] k = "form" -> <<48, 129, Len(body) % 256>> \o body
                 [] OTHER -> Tlv(48, Len(body) % 256, body)
  IN CASE k = "cut" -> Take(whole, Len(whole) - 1) [] k = "extra" -> whole \o <<0>> [] k = "twice" -> whole \o whole [] OTHER -> whole
AllKinds == {"own", "r tag", "r long", "r short", "r huge", "r form", "s tag", "s long", "s short", "s huge", "s form", "no s", "tag", "len long", "len short", "len 0", "form",
             "cut", "extra", "twice"}

Init == \/ str = <<>> /\ done = <<>>
        \/ \E x \in Sizes, y \in Sizes, k \in Kinds, b \in {1, 128} :
             \E t \in {Shaped(Number(x, b), Number(y, 129 - b), k)} : str = t /\ done = <<[x |-> x, y |-> y, k |-> k]>>
\* only strings that begin like a signature grow beyond four octets
Grow == done = <<>> /\ Len(str) < (IF Len(str) > 2 /\ str[1] = 48 /\ str[3] = 2 THEN N ELSE 4) /\ \E s \in Symbols : str' = Append(str, s) /\ UNCHANGED done
Next == Grow
Spec == Init /\ [][Next]_vars

(* ---- C22: the strings read are exactly those written ---- *)
Signature(r, s, len) == <<48, len>> \o Tlv(2, Len(r), r) \o Tlv(2, Len(s), s)
Written(b) == {i \in 4..(Len(b) - 3) :
  LET r == SubSeq(b, 5, i)  s == SubSeq(b, i + 3, Len(b)) IN b = Signature(r, s, b[2])}
ReadIsWritten ==
  LET d == DerRs(str)  w == Written(str) IN
  /\ d.ok = (w # {}) /\ Cardinality(w) <= 1
  /\ (d.ok => Signature(d.r, d.s, str[2]) = str)
Table == done # <<>> =>
  LET q == done[1]  d == DerRs(str) IN
  /\ (q.k \in {"own", "len long", "len short", "len 0"} /\ q.y > 0 => d.ok /\ Len(d.r) = q.x /\ Len(d.s) = q.y)
  /\ (q.k = "own" /\ q.y > 0 /\ q.x > 0 => ~d.open)
  /\ (q.k \in {"r tag", "s tag", "tag", "s long", "s huge", "no s", "form", "cut", "extra", "s short"} => ~d.ok)
Scenario == PrintT("SCEN " \o ToJson([b |-> str, ok |-> DerRs(str).ok, open |-> DerRs(str).open, r |-> DerRs(str).r, s |-> DerRs(str).s]))
=============================================================================
