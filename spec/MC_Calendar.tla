---------------------------- MODULE MC_Calendar ----------------------------
(* The calendar, month after month from known starting days: what the      *)
(* specification says about every date of every month, and about the dates  *)
(* just outside it, against counting.  Each month is a scenario.            *)
EXTENDS Times, Json

CONSTANT Eras   \* set of <<first year, last year>>

\* day numbers of some new years, counted from 1970-01-01
NewYear == [y \in {1, 1600, 1890, 1999, 2096, 4000, 9990} |->
              CASE y = 1 -> -719162 [] y = 1600 -> -135140 [] y = 1890 -> -29219 [] y = 1999 -> 10592
                [] y = 2096 -> 46021 [] y = 4000 -> 741442 [] y = 9990 -> 2929245]
Last9999 == 2932896   \* 9999-12-31

Quick == {<<1, 5>>, <<1600, 1604>>, <<1890, 2110>>, <<4000, 4004>>, <<9990, 9999>>}
Thorough == {<<1, 1600>>, <<1600, 2110>>, <<2096, 4000>>, <<4000, 9999>>}
VARIABLES yr, mon, first, until
vars == <<yr, mon, first, until>>

\* the months by the rhyme, leap years by the rule of the calendar reform
Long(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m # 2 -> 31
                [] y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0) -> 29 [] OTHER -> 28

Init == \E e \in Eras : yr = e[1] /\ until = e[2] /\ mon = 1 /\ first = NewYear[e[1]]
Next == /\ IF mon = 12 THEN yr < until /\ yr' = yr + 1 /\ mon' = 1 ELSE mon' = mon + 1 /\ yr' = yr
        /\ first' = first + Long(yr, mon)
        /\ UNCHANGED until
Spec == Init /\ [][Next]_vars

Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
Date(y, m, d) == Four(y) \o Two(m) \o Two(d)
\* a time of day that goes with a date
Tod(d) == [h |-> (7 * d) % 24, mi |-> (13 * d) % 60, s |-> (29 * d) % 60]

Utc == <<<<0, 0, 0>>>>
EveryDay == \A d \in 0..40 :
  LET t == Date(yr, mon, d)  x == Tod(d)  tod == Two(x.h) \o Two(x.mi)  good == d \in 1..Long(yr, mon)
      at == IF good THEN {<<first + d - 1, 0>>} ELSE {}
      then == IF good THEN {<<first + d - 1, x.h * 3600 + x.mi * 60>>} ELSE {}
      exact == IF good THEN {<<first + d - 1, x.h * 3600 + x.mi * 60 + x.s>>} ELSE {}
  IN /\ Instants(t \o <<90>>, Utc) = at /\ Instants(t, Utc) = at
     /\ Instants(t \o tod \o <<90>>, Utc) = then
     /\ Instants(t \o tod \o Two(x.s) \o <<90>>, Utc) = exact
NoSuchMonth == \A m \in {0, 13, 20, 99} : Instants(Date(yr, m, 1) \o <<90>>, Utc) = {}
Ends == yr = 9999 /\ mon = 12 => first + 30 = Last9999
Scenario == PrintT("SCEN " \o ToJson([y |-> yr, m |-> mon, first |-> first, n |-> Long(yr, mon)]))
=============================================================================
