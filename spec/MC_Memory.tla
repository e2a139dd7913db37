---------------------------- MODULE MC_Memory ----------------------------
(* Private keys in memory: every short history of making, copying, giving a *)
(* PIN to, and ending keys, on a heap of buffers.  Ending a key overwrites  *)
(* and then releases its buffers one at a time.                             *)
EXTENDS Memory, Json

CONSTANTS Ops, Kinds, Hows, LiveMax

VARIABLES keys,     \* every key there ever was: [kind, live, bufs]
          heap,     \* every buffer there ever was: [st, v]
          ending,   \* <<>> or <<key, buffers still to do>>
          gone,     \* key -> what its buffers held when they were released
          want,     \* key -> the secrets it should hold
          hist
vars == <<keys, heap, ending, gone, want, hist>>

Hw(x) == x \in {"edsk", "ecsk"}
Parts(x) == CASE x = "rsa" -> 6 [] Hw(x) -> 2 [] OTHER -> 1
\* secrets are told apart by the key and the part they were made for
Secret(n, p) == <<n, p, 7>>
Pin == <<9, 9, 9>>
Live == {i \in 1..Len(keys) : keys[i].live}
Idle == ending = <<>> /\ Len(hist) < Ops
Alloc(vs) == [i \in 1..Len(vs) |-> [st |-> "used", v |-> vs[i]]]
Ids(n) == [i \in 1..n |-> Len(heap) + i]

Init == keys = <<>> /\ heap = <<>> /\ ending = <<>> /\ gone = <<>> /\ want = <<>> /\ hist = <<>>
Add(x, vs, h) == /\ keys' = Append(keys, [kind |-> x, live |-> TRUE, bufs |-> Ids(Len(vs))])
                 /\ heap' = heap \o Alloc(vs)
                 /\ gone' = Append(gone, <<>>) /\ want' = Append(want, vs)
                 /\ hist' = Append(hist, h) /\ UNCHANGED ending
Make == /\ Idle /\ Cardinality(Live) < LiveMax
        /\ \E x \in Kinds : LET n == Len(keys) + 1 IN
             \* a hardware key starts without a PIN
             Add(x, [p \in 1..Parts(x) |-> IF Hw(x) /\ p = 2 THEN <<>> ELSE Secret(n, p)], [a |-> "make", kind |-> x])
Copy == /\ Idle /\ Cardinality(Live) < LiveMax
        /\ \E i \in Live : Add(keys[i].kind, [p \in 1..Len(keys[i].bufs) |-> heap[keys[i].bufs[p]].v], [a |-> "copy", of |-> i])
SetPin == /\ Idle
          /\ \E i \in Live :
               /\ Hw(keys[i].kind)
               /\ want' = [want EXCEPT ![i] = WithPin(@, TRUE, Pin)]
               \* the PIN it replaces is overwritten, too
               /\ heap' = Append([heap EXCEPT ![keys[i].bufs[2]] = [st |-> "free", v |-> Zeros(Len(@.v))]], [st |-> "used", v |-> Pin])
               /\ keys' = [keys EXCEPT ![i].bufs[2] = Len(heap) + 1]
               /\ hist' = Append(hist, [a |-> "pin", of |-> i])
               /\ UNCHANGED <<ending, gone>>
End == /\ Idle
       /\ \E i \in Live, w \in Hows :
            /\ ending' = <<i, keys[i].bufs>>
            /\ hist' = Append(hist, [a |-> "end", of |-> i, how |-> w])
            /\ UNCHANGED <<keys, heap, gone, want>>
\* one buffer: overwrite, then release
Wipe == /\ ending # <<>> /\ ending[2] # <<>>
        /\ LET b == Head(ending[2])  z == Zeros(Len(heap[b].v)) IN
             /\ heap' = [heap EXCEPT ![b] = [st |-> "free", v |-> z]]
             /\ gone' = [gone EXCEPT ![ending[1]] = Append(@, << z >>)]
             /\ ending' = <<ending[1], Tail(ending[2])>>
        /\ UNCHANGED <<keys, want, hist>>
Ended == /\ ending # <<>> /\ ending[2] = <<>>
         /\ keys' = [keys EXCEPT ![ending[1]].live = FALSE]
         /\ ending' = <<>>
         /\ UNCHANGED <<heap, gone, want, hist>>
Next == Make \/ Copy \/ SetPin \/ End \/ Wipe \/ Ended
Spec == Init /\ [][Next]_vars

(* ---- C23 ---- *)
\* nothing secret is in a released buffer
NothingLeft == \A b \in 1..Len(heap) : heap[b].st = "free" => AllZero(heap[b].v)
Own == \A i, j \in Live : i # j => \A p \in 1..Len(keys[i].bufs), q \in 1..Len(keys[j].bufs) : keys[i].bufs[p] # keys[j].bufs[q]
\* whatever happened to others, a live key holds what it should
Intact == \A i \in Live : (ending = <<>> \/ ending[1] # i) =>
            \A p \in 1..Len(keys[i].bufs) : heap[keys[i].bufs[p]] = [st |-> "used", v |-> want[i][p]]
AllWiped == \A i \in 1..Len(keys) : ~keys[i].live => DropOk(want[i], gone[i])
Scenario == (Len(hist) = Ops /\ ending = <<>>) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
