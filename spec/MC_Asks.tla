------------------------------ MODULE MC_Asks ------------------------------
(* Threads ask questions whose calls overlap in every possible way.  The    *)
(* library holds nothing between calls: an answer is a function of the      *)
(* question.  Every schedule of Calls calls becomes a scenario, replayed    *)
(* with real threads and related real questions.                            *)
EXTENDS Memory, Json

CONSTANTS Calls, Threads, Questions

VARIABLES busy,     \* thread -> question being answered, 0 when idle
          given,    \* answers given so far: pairs of question and answer
          hist
vars == <<busy, given, hist>>

Begun == {i \in 1..Len(hist) : hist[i].a = "begin"}
Used == {hist[i].q : i \in Begun}
Answer(x) == <<"answer to", x>>
Init == busy = [t \in Threads |-> 0] /\ given = {} /\ hist = <<>>
\* questions are named in the order of their first use
Begin == /\ Cardinality(Begun) < Calls
         /\ \E t \in Threads, x \in Questions :
              /\ busy[t] = 0
              /\ x = 1 \/ x - 1 \in Used
              /\ (t = 1 \/ \E i \in Begun : hist[i].t >= t - 1)
              /\ busy' = [busy EXCEPT ![t] = x]
              /\ hist' = Append(hist, [a |-> "begin", t |-> t, q |-> x])
         /\ UNCHANGED given
End == \E t \in Threads :
         /\ busy[t] # 0
         /\ given' = given \cup {<<busy[t], Answer(busy[t])>>}
         /\ busy' = [busy EXCEPT ![t] = 0]
         /\ hist' = Append(hist, [a |-> "end", t |-> t, q |-> busy[t]])
Next == Begin \/ End
Spec == Init /\ [][Next]_vars

(* ---- C26 ---- *)
OneAnswer == \A g \in given : SameAnswer(given, g[1], g[2])
Scenario == Len(hist) = 2 * Calls => PrintT("SCEN " \o ToJson(hist))
=============================================================================
