----------------------------- MODULE MC_Read -----------------------------
(* The wire reader on every buffer put together from up to Parts pieces:    *)
(* every offset that reads can reach, every read there.  Each state is      *)
(* printed as a scenario: the reads that lead to it and, for every further  *)
(* read, what it must give.                                                 *)
EXTENDS Wire, Json

CONSTANT Parts

VARIABLES buf, off, path
vars == <<buf, off, path>>
View == <<buf, off>>

Pieces == {<<0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<0, 0, 0, 3>>, <<0, 0, 0, 7>>, <<255, 255, 255, 255>>, <<127, 255, 255, 255>>,
           <<128, 0, 0, 0>>, <<127>>, <<128>>, <<0, 128>>, <<0, 127>>, <<195, 169>>, <<237, 160, 128>>, <<65>>}
RECURSIVE Bufs(_)
Bufs(n) == IF n = 0 THEN {<<>>} ELSE Bufs(n - 1) \cup {x \o y : x \in Bufs(n - 1), y \in Pieces}

Calls == << <<"bytes", 0>>, <<"string", 0>>, <<"mpint", 0>>, <<"u32", 0>>, <<"u64", 0>>, <<"cstring", 0>>,
            <<"raw", 0>>, <<"raw", 1>>, <<"raw", 3>>, <<"raw", 4>>, <<"raw", 9>> >>
Does(i, o) == RdOf(Calls[i][1], Calls[i][2], buf, o)

Init == buf \in Bufs(Parts) /\ off = 0 /\ path = <<>>
Read == \E i \in 1..Len(Calls) : \E r \in {Does(i, off)} :
          /\ r.st = "ok" /\ off' = r.o /\ path' = Append(path, i) /\ UNCHANGED buf
Next == Read
Spec == Init /\ [][Next]_vars

\* one line per state
Shown == PrintT("SCEN " \o ToJson([b |-> buf, o |-> off, p |-> path,
           r |-> [i \in 1..Len(Calls) |-> LET r == Does(i, off) IN [ok |-> r.st = "ok", v |-> r.v, o |-> r.o]]]))

(* ---- C15 ---- *)
\* never beyond the buffer, always what is there
InBounds == \A i \in 1..Len(Calls) : LET r == Does(i, off) IN
  r.st = "ok" => /\ r.o <= Len(buf) /\ r.o >= off
                 /\ (r.o > off \/ Calls[i] = <<"raw", 0>>)
\* a value read is exactly the one whose encoding was consumed
Exact == \A i \in 1..Len(Calls) : LET r == Does(i, off)  k == Calls[i][1]  used == SubSeq(buf, off + 1, r.o) IN
  r.st = "ok" =>
    CASE k \in {"bytes", "string"} -> WrBytes(r.v) = used
      [] k = "mpint" -> WrMpint(r.v) = used /\ (r.v # <<>> => r.v[1] # 0)
      [] k \in {"u32", "u64", "raw"} -> r.v = used
      [] OTHER -> WrCstring(r.v) = used \/ \E j \in 1..Len(used) : used[j] > 127
\* and whatever is encoded canonically there is read
Complete ==
  /\ (Len(buf) - off >= 4 => Does(4, off).st = "ok")
  /\ (Len(buf) - off >= 8 => Does(5, off).st = "ok")
  /\ \A v \in {<<>>, <<65>>, <<127, 65>>, <<128>>} : LET w == WrMpint(v) IN
        off + Len(w) <= Len(buf) /\ SubSeq(buf, off + 1, off + Len(w)) = w => Does(3, off).st = "ok" /\ Does(3, off).v = v
\* a failed read leaves the value of every other read as it was: reads at an
\* offset depend on the bytes there only
Local == \A i \in 1..Len(Calls) : RdOf(Calls[i][1], Calls[i][2], Drop(buf, off), 0).v = Does(i, off).v
=============================================================================
