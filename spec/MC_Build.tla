----------------------------- MODULE MC_Build -----------------------------
(* What a certificate says after any sequence of setter calls: the object   *)
(* is tracked by the specification's setters and, independently, by a       *)
(* reference that keeps the last call per field (accumulating calls since   *)
(* the last replacement).  Every transition is printed as a scenario.       *)
EXTENDS Builder, Json

CONSTANTS Names,     \* option names
          MaxPr

VARIABLES o,     \* the object
          calls, \* what the reference needs: field -> relevant calls
          hist
vars == <<o, calls, hist>>
View == <<o, calls>>

Key(n) == [kt |-> "ssh-ed25519", p |-> <<<<n>>>>]
S(n) == Zeros(7) \o <<n>>
Empty == [serial |-> <<>>, id |-> <<>>, pr |-> <<>>, ex |-> <<>>, cr |-> <<>>]
Init == /\ o = BObj(NewCert(Key(9), User, Key(1), <<5>>, S(0)), <<>>, <<>>)
        /\ calls = Empty /\ hist = <<>>

Step(h, x, cs) == /\ o' = x /\ calls' = cs /\ hist' = Append(hist, h)
                  /\ PrintT("SCEN " \o ToJson(hist'))

\* one-valued fields: the reference is the last call
One == \E m \in {<<"serial", S(1), "1">>, <<"serial", S(2), "2">>} :
  Step([f |-> m[1], v |-> m[3]], SetField(o, m[1], m[2]), [calls EXCEPT ![m[1]] = <<m[2]>>])
\* principals: one more, or all anew
Pr == \E n \in {"p", "q"} : Len(o.c.pr) < MaxPr /\
  Step([f |-> "pr", v |-> n], SetField(o, "pr", A(n)), [calls EXCEPT !.pr = Append(@, A(n))])
Prs == \E q \in {<<>>, <<"q">>, <<"q", "p">>, <<"p", "p">>} : LET v == [i \in 1..Len(q) |-> A(q[i])] IN
  Step([f |-> "prs", v |-> q], SetField(o, "prs", v), [calls EXCEPT !.pr = v])
\* options: one more or again, or all anew
Vals == {"", "v"}
Opt == \E f \in {"cr", "ex"}, n \in Names, v \in Vals :
  Step([f |-> f, k |-> n, v |-> v], SetField(o, f, <<A(n), A(v)>>),
       [calls EXCEPT ![f] = Append(SelectSeq(@, LAMBDA x : x[1] # A(n)), <<A(n), A(v)>>)])
Maps == {<<>>, <<<<"b", "w">>, <<"a", "">>>>}
Opts == \E f \in {"cr", "ex"}, m \in Maps : LET v == [i \in 1..Len(m) |-> <<A(m[i][1]), A(m[i][2])>>] IN
  Step([f |-> f \o "s", v |-> m], SetField(o, f \o "s", v), [calls EXCEPT ![f] = v])

Next == One \/ Pr \/ Prs \/ Opt \/ Opts
Spec == Init /\ [][Next]_vars

(* ---- C03 ---- *)
LastCall(x, d) == IF x = <<>> THEN d ELSE x[1]
CarriesLast ==
  /\ o.c.serial = LastCall(calls.serial, S(0))
  /\ o.c.pr = calls.pr
  /\ o.c.cr = Pairs(calls.cr) /\ o.c.ex = Pairs(calls.ex)
  /\ Cardinality({x[1] : x \in o.c.cr}) = Cardinality(o.c.cr)
\* the encoding determines the content, lists options in lexical order and
\* nothing else
Perfect(alg, key, msg, sig) == alg = "ed25519" /\ sig = key[1] \o msg
NoHash(a, x) == <<>>
Signed == LET t == EncodeTbs(o.c) IN Attached(o, WrBytes(A("ssh-ed25519")) \o WrBytes(<<1>> \o t))
Names0(b) == [i \in 1..Len(DecodeAll(<<"s", "b">>, b).v) |-> DecodeAll(<<"s", "b">>, b).v[i][1]]
Encodes ==
  LET x == Signed  i == ImportCert(x.ser, Perfect, NoHash)
      h == Decode(<<"s", "b">>, x.ser, 0)
      pk == ParsePubData(PlainKtOf(Kt(h.v[1])), x.ser, h.o)
      d == Decode(CertTail, x.ser, pk.o)
  IN /\ i.ok /\ i.c = x.c
     /\ \A f \in {7, 8} : LET n == Names0(d.v[f]) IN \A a, b \in 1..Len(n) : a < b => LexLess(n[a], n[b], 1)
\* text and back
Texts ==
  LET x == Signed  i == ImportCertText(A(x.c.kt) \o <<32>> \o B64(x.ser) \o <<32>> \o x.c.id, Perfect, NoHash) IN
  i.ok /\ i.c = x.c /\ i.b = x.ser
=============================================================================
