----------------------------- MODULE MC_Write -----------------------------
(* The wire writer: every sequence of up to Calls writes from a menu of     *)
(* values at the edges, and reading everything back.                        *)
EXTENDS Builder, Json

CONSTANT Calls

VARIABLES out, done
vars == <<out, done>>

Ed == [kt |-> "ssh-ed25519", p |-> <<<<1, 2, 3>>>>]
Rsa == [kt |-> "ssh-rsa", p |-> <<<<1, 0, 1>>, <<200, 1>>>>]
Menu == << <<"cstring", <<>>>>, <<"cstring", A("ab")>>, <<"bytes", <<>>>>, <<"bytes", <<0, 255>>>>, <<"string", <<195, 169>>>>,
           <<"raw", <<>>>>, <<"raw", <<9, 0>>>>, <<"u32", <<0, 0, 0, 1>>>>, <<"u32", <<255, 255, 255, 255>>>>,
           <<"u64", <<0, 0, 0, 1, 0, 0, 0, 0>>>>, <<"u64", <<128, 0, 0, 0, 0, 0, 0, 1>>>>,
           <<"mpint", <<>>>>, <<"mpint", <<0>>>>, <<"mpint", <<0, 0, 127>>>>, <<"mpint", <<128>>>>, <<"mpint", <<0, 200, 0>>>>, <<"mpint", <<1, 0>>>>,
           <<"strings", <<>>>>, <<"strings", <<<<>>>>>>, <<"strings", <<A("b"), A("a"), A("b")>>>>,
           <<"map", <<>>>>, <<"map", <<<<A("b"), <<>>>>, <<A("a"), A("v")>>>>>>, <<"map", <<<<A("ab"), A("x")>>, <<A("B"), <<>>>>, <<A("a"), <<>>>>>>>>,
           <<"map", <<<<<<>>, <<195, 169>>>>>>>> >>
Init == out = <<>> /\ done = <<>>
Write == /\ Len(done) < Calls
         /\ \E i \in 1..Len(Menu) : /\ done' = Append(done, i)
                                    /\ out' = out \o WrOf(Menu[i][1], Menu[i][2])
                                    /\ (Len(done') = Calls =>
                                        PrintT("SCEN " \o ToJson([w |-> [j \in 1..Len(done') |-> [k |-> Menu[done'[j]][1], v |-> Menu[done'[j]][2]]], out |-> out'])))
Next == Write
Spec == Init /\ [][Next]_vars

(* ---- C16 ---- *)
\* matching reads give the values back, in order, to the last byte
Value(i) == LET k == Menu[i][1]  v == Menu[i][2] IN
  CASE k = "mpint" -> StripZeros(v) [] k = "strings" -> v [] k = "map" -> Pairs(v) [] OTHER -> v
ReadAs(i, o) == LET k == Menu[i][1]  r == RdOf(IF k \in {"strings", "map"} THEN "bytes" ELSE k, Len(Menu[i][2]), out, o) IN
  IF k = "raw" /\ Menu[i][2] = <<>> THEN Res("ok", <<>>, o)
  ELSE IF r.st # "ok" THEN r
  ELSE CASE k = "strings" -> LET d == DecodeAll(<<"s">>, r.v) IN Res(IF d.ok THEN "ok" ELSE "bad", [j \in 1..Len(d.v) |-> d.v[j][1]], r.o)
         [] k = "map" -> LET d == ParseOptions(r.v) IN Res(IF d.ok THEN "ok" ELSE "bad", d.v, r.o)
         [] OTHER -> r
ReadsBack ==
  LET f == FoldLeft(LAMBDA a, i : IF ~a.ok THEN a ELSE LET r == ReadAs(i, a.o) IN [ok |-> r.st = "ok" /\ r.v = Value(i), o |-> r.o],
                    [ok |-> TRUE, o |-> 0], done)
  IN f.ok /\ f.o = Len(out)
\* option maps come out in lexical order of their names
InOrder == \A j \in 1..Len(done) : Menu[done[j]][1] = "map" =>
  LET q == OptSeq(Pairs(Menu[done[j]][2])) IN \A m \in 1..(Len(q) - 1) : LexLess(q[m][1], q[m + 1][1], 1)
OnlyAppends == [][Take(out', Len(out)) = out]_vars
=============================================================================
