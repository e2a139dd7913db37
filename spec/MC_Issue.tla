----------------------------- MODULE MC_Issue -----------------------------
(* The life of one certificate object, exhaustively: setters, signers that  *)
(* are honest, wrong, late or broken, signatures attached by hand, export,  *)
(* import and tampering on the way, in every order.  Signatures are perfect *)
(* and named by what they are: the key followed by the message.  hist is    *)
(* how a state was first reached; it is not part of the state (VIEW), and   *)
(* every transition of the graph is printed as a scenario.                  *)
EXTENDS Builder, Json

CONSTANT Wide  \* more fields

VARIABLES o, hist
vars == <<o, hist>>
View == o

K(n) == [kt |-> "ssh-ed25519", p |-> <<<<n>>>>]
Subject == K(9)
Sig(n, msg) == WrBytes(A("ssh-ed25519")) \o WrBytes(<<n>> \o msg)
Perfect(alg, key, msg, sig) == alg = "ed25519" /\ sig = key[1] \o msg
NoHash(a, x) == <<>>
Import(b) == ImportCert(b, Perfect, NoHash)
Serial(n) == Zeros(7) \o <<n>>

Init == /\ o = BObj(NewCert(Subject, User, K(1), <<5, 5>>, Serial(1)), <<>>, <<>>)
        /\ hist = <<>>

\* h is the event, x the object afterwards
Step(h, x) == /\ o' = x
              /\ hist' = Append(hist, h)
              /\ PrintT("SCEN " \o ToJson(hist'))

Menu == {<<"serial", Serial(1), "1">>, <<"serial", Serial(2), "2">>,
         <<"pr", A("p"), "p">>, <<"prs", <<>>, "">>,
         <<"cr", <<A("c"), <<>>>>, "">>, <<"cr", <<A("c"), A("v")>>, "v">>, <<"crs", <<>>, "">>,
         <<"ca", K(1), "1">>, <<"ca", K(2), "2">>}
        \cup (IF ~Wide THEN {} ELSE
        {<<"rs", <<>>, "">>, <<"rs", A("r"), "r">>, <<"ex", <<A("c"), <<>>>>, "">>, <<"exs", <<>>, "">>})
Set == \E m \in Menu :
         /\ (m[1] = "pr" => Len(o.c.pr) < 1)
         /\ Step([a |-> "set", f |-> m[1], v |-> m[3]], SetField(o, m[1], m[2]))

\* what the signer (or whoever attaches a signature) comes up with
Flipped(c) == [c EXCEPT !.serial = IF @ = Serial(1) THEN Serial(2) ELSE Serial(1)]
CaNo == o.c.ca.p[1][1]
Answers == {
  <<"k1", <<Sig(1, EncodeTbs(o.c))>>>>,
  <<"k2", <<Sig(2, EncodeTbs(o.c))>>>>,
  <<"late", <<Sig(CaNo, EncodeTbs(Flipped(o.c)))>>>>,       \* the CA's signature of another content
  <<"same", IF o.c.sig = <<>> THEN <<>> ELSE <<o.c.sig>>>>, \* the signature it already has
  <<"junk", <<<<1, 2, 3>>>>>>,
  <<"empty", <<<<>>>>>>,
  <<"none", <<>>>> }
Good(r) == r # <<>> /\ Fits(o, r[1], Perfect, NoHash)
St(b) == IF b THEN "ok" ELSE "err"
Sign == \E w \in Answers :
          Step([a |-> "sign", by |-> w[1], st |-> St(Good(w[2]))], IF Good(w[2]) THEN Attached(o, w[2][1]) ELSE o)
Attach == \E w \in Answers :
          /\ w[2] # <<>>
          /\ Step([a |-> "add", by |-> w[1], st |-> St(Good(w[2]))], IF Good(w[2]) THEN Attached(o, w[2][1]) ELSE o)

\* the exported bytes, on their way to whoever imports them
Unsigned(b) == Take(b, Len(b) - Len(WrBytes(o.c.sig)))
Tampered == {
  <<"as is", o.ser>>,
  <<"resigned", LET t == Unsigned(o.ser) IN t \o WrBytes(Sig(3, t))>>,
  <<"unsigned", Unsigned(o.ser)>>,
  <<"cut", Take(o.ser, Len(o.ser) - 1)>>,
  \* the signature carried over to the object's present content
  <<"moved", EncodeTbs(o.c) \o WrBytes(o.c.sig)>>,
  \* or to a content nobody signed
  <<"serial", LET i == Import(o.ser) IN EncodeTbs([i.c EXCEPT !.serial = Serial(7)]) \o WrBytes(o.c.sig)>> }
Reload == /\ o.ser # <<>>
          /\ \E t \in Tampered : LET i == Import(t[2]) IN
               Step([a |-> "load", how |-> t[1], st |-> St(i.ok)], IF i.ok THEN Loaded(i, t[2], <<>>) ELSE o)
Clone == Step([a |-> "clone"], o)

Next == Set \/ Sign \/ Attach \/ Reload \/ Clone
Spec == Init /\ [][Next]_vars

(* ---- C01, C03, C04 on the model ---- *)
\* what is exported always verifies, carries the reported signature, and is
\* its own encoding
ExportVerifies == o.ser # <<>> =>
  LET i == Import(o.ser) IN i.ok /\ i.c.sig = o.c.sig /\ EncodeCert(i.c) = o.ser /\ i.tbs = Unsigned(o.ser)
ExportIffSigned == (o.ser = <<>>) = (o.c.sig = <<>>)
\* a new signature covers the content at that moment; nothing else touches
\* signature or exported bytes
Now == hist'[Len(hist')]
SignedIsCurrent == [][
  IF Now.a \in {"sign", "add"} /\ Now.st = "ok"
  THEN o'.ser = EncodeCert(o'.c) /\ Import(o'.ser).c = o'.c /\ [o'.c EXCEPT !.sig = <<>>] = [o.c EXCEPT !.sig = <<>>]
  ELSE IF Now.a = "load" /\ Now.st = "ok" THEN o'.ser = EncodeCert(o'.c)
  ELSE o'.ser = o.ser /\ o'.c.sig = o.c.sig ]_vars
\* forgery does not pay: an import succeeds only for bytes that were exported
\* or that carry the CA's signature of just these bytes
NoForgery == [][
  Now.a = "load" => (Now.st = "ok") = (Now.how = "as is" \/ (Now.how = "moved" /\ EncodeTbs(o.c) = Unsigned(o.ser))) ]_vars
\* only the named CA's signature of the current content is taken
OnlyTheCa == [][
  Now.a \in {"sign", "add"} =>
    (Now.st = "ok") = ((Now.by = "k1" /\ CaNo = 1) \/ (Now.by = "k2" /\ CaNo = 2)
                       \/ (Now.by = "same" /\ o.ser # <<>> /\ Unsigned(o.ser) = EncodeTbs(o.c))) ]_vars
=============================================================================
