------------------------------- MODULE Memory ------------------------------
(* Secrets in memory, fresh random values, and answers over time.           *)
EXTENDS Bytes

(* ---- secrets ---------------------------------------------------------- *)
(* A live private key owns one buffer per secret component.  When it is     *)
(* dropped every buffer is released exactly as overwritten: nothing of the  *)
(* former content o is found in what was there at the release, n.           *)
Filled(n) == \A i \in 1..Len(n) : n[i] = n[1]
Kept(o, n, i) == \A j \in i..(i + 2) : n[j] = o[j]
Wiped(o, n) ==
  /\ Len(n) = Len(o)
  /\ IF Filled(n) THEN n # o \/ n[1] = 0
     ELSE /\ ~\A i \in 1..Len(n) : n[i] = o[i] \/ n[i] = 0
          /\ ~\E i \in 1..(Len(n) - 2) : Kept(o, n, i)
\* released: for every buffer the contents found at its releases
DropOk(secret, released) ==
  /\ Len(released) = Len(secret)
  /\ \A i \in 1..Len(secret) :
        Len(secret[i]) = 0 \/ (Len(released[i]) >= 1 /\ \A k \in 1..Len(released[i]) : Wiped(secret[i], released[i][k]))
\* the PIN is the last component; only hardware-backed keys have one
WithPin(secret, hw, pin) == IF hw THEN [secret EXCEPT ![Len(secret)] = pin] ELSE secret

(* ---- freshness -------------------------------------------------------- *)
\* a value of at least six bytes does not repeat a six-byte stretch of itself
SelfRepeats(v) == \E i, j \in 1..(Len(v) - 5) : i < j /\ SubSeq(v, i, i + 5) = SubSeq(v, j, j + 5)
Occurs(a, v) == \E i \in 1..(Len(v) - Len(a) + 1) : SubSeq(v, i, i + Len(a) - 1) = a
Weights == {1, 2, 4, 8, 16, 32, 64, 128}
Reversed(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
\* every bit of every position has been seen in both states and every position
\* takes many values
Spread(bs, len, min) ==
  \A i \in 1..len : LET col == {b[i] : b \in bs} IN
     /\ Cardinality(col) >= min
     /\ \A w \in Weights : (\E x \in col : Bit(x, w)) /\ (\E x \in col : ~Bit(x, w))
\* no two positions move together
Untied(bs, len) == \A i, j \in 1..len : i < j => \E b \in bs : b[i] # b[j]

(* ---- answers ---------------------------------------------------------- *)
\* hist: pairs of call and answer
SameAnswer(hist, c, v) == \A p \in hist : p[1] = c => p[2] = v
=============================================================================
