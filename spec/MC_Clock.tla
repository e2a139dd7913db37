----------------------------- MODULE MC_Clock -----------------------------
(* Wall clocks.  A wall clock in a zone shows, at every instant, the        *)
(* instant plus the offset in force.  For every reading around the changes  *)
(* of some zones, the instants the specification lets the reading stand for *)
(* are those at which the clock shows it: none in a gap, two in an overlap. *)
EXTENDS Times, Json

CONSTANTS Years, Step
QuickYears == <<2021, 2024>>
MoreYears == <<1980, 1999, 2000, 2001, 2021, 2024, 2036>>
VARIABLES zn, day, sec
vars == <<zn, day, sec>>

\* POSIX rules: standard and summer offset, Julian days 60 (1 March) and 300
\* (27 October) and the local times of day at which summer starts and ends
Zones == [ a |-> [tz |-> "XXX-1YYY-3:30,J60/2,J300/4", std |-> 3600, dst |-> 12600, on |-> 7200, off |-> 14400, south |-> FALSE],
           b |-> [tz |-> "AAA5BBB,J60/0,J300/1", std |-> -18000, dst |-> -14400, on |-> 0, off |-> 3600, south |-> FALSE],
           d |-> [tz |-> "CCC-10:30DDD-11,J300/2,J60/2", std |-> 37800, dst |-> 39600, on |-> 7200, off |-> 7200, south |-> TRUE],
           e |-> [tz |-> "EEE0FFF1,J60/1,J300/1", std |-> 0, dst |-> -3600, on |-> 3600, off |-> 3600, south |-> FALSE] ]
March(y) == CivilDays(y, 3, 1)
October(y) == CivilDays(y, 10, 27)
\* the changes of one year, in order
Changes(z, y) ==
  LET up(d) == Norm(d, z.on - z.std) \o <<z.dst>>
      down(d) == Norm(d, z.off - z.dst) \o <<z.std>>
  IN IF z.south THEN << down(March(y)), up(October(y)) >> ELSE << up(March(y)), down(October(y)) >>
Before(z) == <<-1000000, 0, IF z.south THEN z.dst ELSE z.std>>
Table(z) == << Before(z) >> \o Flatten([i \in 1..Len(Years) |-> Changes(z, Years[i])])
Tabs == [x \in DOMAIN Zones |-> Table(Zones[x])]

Moments == {<<y, dy>> : y \in {Years[i] : i \in 1..Len(Years)}, dy \in {<<2, 28>>, <<3, 1>>, <<3, 2>>, <<10, 26>>, <<10, 27>>, <<10, 28>>}}
Init == zn \in DOMAIN Zones /\ day \in {<<x[1], x[2][1], x[2][2]>> : x \in Moments} /\ sec = 0
Next == /\ sec < 86400 - Step /\ sec' = sec + Step /\ UNCHANGED <<zn, day>>
Spec == Init /\ [][Next]_vars

\* what the clock of zone table z shows at instant i
Shows(z, i) == LET held == {k \in 1..Len(z) : InstLeq(<<z[k][1], z[k][2]>>, i)}
                   k == CHOOSE k \in held : \A j \in held : j <= k
               IN Norm(i[1], i[2] + z[k][3])
Readings == {s \in {sec - 1, sec, sec + 1} : s >= 0}
Wall(s) == <<CivilDays(day[1], day[2], day[3]), s>>
When(w) == {i \in {Norm(w[1], w[2] - 900 * q) : q \in (-24)..48} : Shows(Tabs[zn], i) = w}
OnTheClock == \A s \in Readings : LocalInstants(Tabs[zn], Wall(s)) = When(Wall(s))
AtMostTwo == \A s \in Readings : Cardinality(When(Wall(s))) <= 2
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Date == Two(day[1] \div 100) \o Two(day[1] % 100) \o Two(day[2]) \o Two(day[3])
Texts(s) == LET x == Two(s \div 3600) \o Two((s \div 60) % 60) IN
            { Date \o x \o Two(s % 60) } \cup (IF s % 60 = 0 THEN { Date \o x } ELSE {}) \cup (IF s = 0 THEN { Date } ELSE {})
\* in a gap the first skipped second may be taken for the change itself
Open(w) == JumpInstants(Tabs[zn], w)
Scenario == \A s \in Readings : \A t \in Texts(s) :
  PrintT("SCEN " \o ToJson([tz |-> Zones[zn].tz, t |-> t, must |-> SetToSeq(When(Wall(s))), may |-> SetToSeq(Open(Wall(s)))]))
=============================================================================
