------------------------------- MODULE Times -------------------------------
(* Validity timestamps.  An instant is <<days, secs>> since 1970-01-01 UTC. *)
EXTENDS PrivKey

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
\* days before 1 January of year y, counted from 0000-01-01
DaysToYear(y) == IF y = 0 THEN 0
                 ELSE 365 * y + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + 1
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE DaysToMonth(y, m - 1) + DaysIn(y, m - 1)
Epoch == 719528   \* days from 0000-01-01 to 1970-01-01
CivilDays(y, m, d) == DaysToYear(y) + DaysToMonth(y, m) + d - 1 - Epoch
ASSUME CivilDays(1970, 1, 1) = 0 /\ CivilDays(2000, 3, 1) = 11017 /\ CivilDays(1969, 12, 31) = -1

Num(t, i, n) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, SubSeq(t, i, i + n - 1))
IsDigit(c) == c \in 48..57
\* the civil time a timestamp text denotes: [ok, utc, days, secs]; leap says
\* that the seconds field is 60, whose meaning is left open
Civil(t) ==
  LET utc == t # <<>> /\ t[Len(t)] = 90
      x == IF utc THEN SubSeq(t, 1, Len(t) - 1) ELSE t
      n == Len(x)
      form == n \in {8, 12, 14} /\ \A i \in 1..n : IsDigit(x[i])
      y == Num(x, 1, 4)  mo == Num(x, 5, 2)  d == Num(x, 7, 2)
      h == IF n >= 12 THEN Num(x, 9, 2) ELSE 0
      mi == IF n >= 12 THEN Num(x, 11, 2) ELSE 0
      s == IF n = 14 THEN Num(x, 13, 2) ELSE 0
      ok == form /\ mo \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, mo) /\ h <= 23 /\ mi <= 59 /\ s <= 60
  IN IF ~form THEN [ok |-> FALSE, utc |-> utc, leap |-> FALSE, i |-> <<0, 0>>]
     ELSE IF ~ok THEN [ok |-> FALSE, utc |-> utc, leap |-> FALSE, i |-> <<0, 0>>]
     ELSE [ok |-> TRUE, utc |-> utc, leap |-> s = 60,
           i |-> <<CivilDays(y, mo, d), h * 3600 + mi * 60 + s>>]

Norm(d, s) == <<d + (s \div 86400), s % 86400>>   \* \div rounds down, % is non-negative
InstLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
InstLeq(x, y) == x = y \/ InstLess(x, y)
\* zone: sequence of <<days, secs, offset>>: from that instant on the offset
\* holds; the first entry holds since forever.
ZoneOk(zone, k, i) ==
  /\ (k > 1 => InstLeq(<<zone[k][1], zone[k][2]>>, i))
  /\ (k < Len(zone) => InstLess(i, <<zone[k+1][1], zone[k+1][2]>>))
LocalInstants(zone, c) ==
  {i \in {Norm(c[1], c[2] - zone[k][3]) : k \in 1..Len(zone)} :
      \E k \in 1..Len(zone) : i = Norm(c[1], c[2] - zone[k][3]) /\ ZoneOk(zone, k, i)}
\* the set of instants a timestamp may denote; empty: must be rejected
Instants(t, zone) ==
  LET c == Civil(t) IN
  IF ~c.ok THEN {} ELSE IF c.utc THEN {c.i} ELSE LocalInstants(zone, c.i)
\* The first skipped second of a forward jump is the local name of the jump
\* itself under the old offset: it may be read as that instant, or rejected.
JumpInstants(zone, c) ==
  {<<zone[k][1], zone[k][2]>> : k \in {k \in 2..Len(zone) : /\ zone[k][3] > zone[k-1][3]
                                                        /\ Norm(c[1], c[2] - zone[k-1][3]) = <<zone[k][1], zone[k][2]>>}}
Readable(t, zone) == LET c == Civil(t) IN
  IF ~c.ok THEN {} ELSE IF c.utc THEN {c.i} ELSE LocalInstants(zone, c.i) \cup JumpInstants(zone, c.i)
\* may / must a timestamp be rejected
MayReject(t, zone) == Instants(t, zone) = {} \/ Civil(t).leap
TimeAllowed(t, zone, i) ==
  \/ i \in Readable(t, zone)
  \/ Civil(t).leap /\ \E j \in Instants(t, zone) : i = Norm(j[1], j[2] - 1)
=============================================================================
