----------------------------- MODULE MC_Cert -----------------------------
(* Certificates on the wire: every choice of up to Devs unusual things      *)
(* about the fields, their encoding and the signature, for every key type,  *)
(* against a table that says what each of them means.  The reader of the    *)
(* specification must agree with the table, and so must the library.        *)
EXTENDS Cert, Json

CONSTANT Devs

VARIABLES pick, seen
vars == <<pick, seen>>

F(raw) == [raw |-> raw, ok |-> FALSE, v |-> <<>>]     \* must be refused
G(raw, v) == [raw |-> raw, ok |-> TRUE, v |-> v]      \* accepted, meaning v
St(q) == Flatten([i \in 1..Len(q) |-> WrBytes(q[i])])
p == A("p")
Flag(n) == WrBytes(n) \o WrBytes(<<>>)
Val(n, x) == WrBytes(n) \o WrBytes(WrBytes(x))
Bad8 == <<195, 40>>     \* not UTF-8

Prs == << G(St(<<p>>), <<p>>), G(<<>>, <<>>), G(St(<<p, p>>), <<p, p>>), G(St(<<A("q"), p>>), <<A("q"), p>>), G(St(<<p, <<>>>>), <<p, <<>>>>),
          G(St(<<<<>>>>), <<<<>>>>), G(St(<<<<195, 169>>>>), <<<<195, 169>>>>),
          F(St(<<p>>) \o <<0>>), F(<<0, 0, 0, 2, 112>>), F(St(<<Bad8>>)), F(St(<<p>>) \o <<255, 255, 255, 255>>), F(<<0, 0, 0>>) >>
a == A("a")
b == A("b")
Ops == << G(Flag(a), {<<a, <<>>>>}), G(<<>>, {}), G(Val(a, A("v")), {<<a, A("v")>>}),
          G(Flag(a) \o Val(b, A("v")), {<<a, <<>>>>, <<b, A("v")>>}),
          G(Val(b, A("v")) \o Flag(a), {<<a, <<>>>>, <<b, A("v")>>}),              \* order is not enforced
          G(WrBytes(a) \o WrBytes(WrBytes(<<>>)), {<<a, <<>>>>}),
          G(Flag(<<>>), {<<<<>>, <<>>>>}),
          G(WrBytes(a) \o WrBytes(WrBytes(A("v")) \o <<9>>), {<<a, A("v")>>}),     \* what follows the value is not looked at
          F(Flag(a) \o Flag(a)), F(Val(a, A("v")) \o Flag(a)), F(Flag(a) \o Flag(b) \o Val(a, A("w"))),
          F(WrBytes(a)), F(WrBytes(a) \o WrBytes(A("v"))), F(WrBytes(a) \o WrBytes(<<0, 0, 0, 2, 118>>)),
          F(Val(a, Bad8)), F(Flag(Bad8)), F(Flag(a) \o <<0, 0, 0, 1>>), F(Flag(a) \o <<0>>) >>
Roles == << G(<<0, 0, 0, 1>>, 1), G(<<0, 0, 0, 2>>, 2), F(<<0, 0, 0, 0>>), F(<<0, 0, 0, 3>>), F(<<0, 0, 1, 1>>), F(<<1, 0, 0, 0>>),
            F(<<128, 0, 0, 1>>), F(<<255, 255, 255, 255>>) >>
Ids == << G(A("id"), A("id")), G(<<>>, <<>>), G(<<240, 159, 166, 128>>, <<240, 159, 166, 128>>), G(<<10, 32>>, <<10, 32>>),
          F(Bad8), F(<<255>>), F(<<237, 160, 128>>) >>
U8(x) == Zeros(7) \o <<x>>
Ones == [i \in 1..8 |-> 255]
High == <<128, 0, 0, 0, 0, 0, 0, 0>>
Times == << G(U8(1), U8(1)), G(U8(0), U8(0)), G(Ones, Ones), G(High, High) >>
Rsv == << G(<<>>, <<>>), G(A("r"), A("r")), G(<<0, 0, 0, 0>>, <<0, 0, 0, 0>>) >>
Nonces == << G(<<1, 2>>, <<1, 2>>), G(<<>>, <<>>), G(Zeros(32), Zeros(32)) >>
\* inner type name: its own, the plain one, another one's, unknown ones
InnerNames == << "own", "plain", "other", "upper", "cut", "empty" >>
Curves2 == << "own", "other", "upper", "empty" >>
Cas == << "own", "extra", "cut", "cert", "none", "unknown" >>
Sigs == << "own", "other key", "other bytes", "empty", "unsigned nonce", "twice", "other serial", "cut" >>
Ends == << "none", "extra", "cut1", "cut all", "no sig" >>

Wheres == [ typ |-> InnerNames, crv |-> Curves2, nonce |-> Nonces, serial |-> Times, role |-> Roles, id |-> Ids, pr |-> Prs, va |-> Times,
            vb |-> Times, cr |-> Ops, ex |-> Ops, rs |-> Rsv, ca |-> Cas, sig |-> Sigs, end |-> Ends ]
Kinds == {"ssh-rsa-cert-v01@openssh.com", "ecdsa-sha2-nistp256-cert-v01@openssh.com", "ecdsa-sha2-nistp384-cert-v01@openssh.com",
          "ecdsa-sha2-nistp521-cert-v01@openssh.com", "ssh-ed25519-cert-v01@openssh.com", "sk-ssh-ed25519-cert-v01@openssh.com",
          "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com"}

(* ---- the bytes a choice stands for ---- *)
At(q, i) == Wheres[i][q[i]]
Data(q) == LET k == KtNamed(q.kind) IN
  CASE k.fam = "rsa" -> WrMpint(<<3>>) \o WrMpint(<<200>>)
    [] k.fam = "ecdsa" -> WrBytes(CASE At(q, "crv") = "own" -> CurveOf(k)
                                    [] At(q, "crv") = "other" -> IF CurveOf(k) = A("nistp256") THEN A("nistp384") ELSE A("nistp256")
                                    [] At(q, "crv") = "upper" -> A("NISTP256") [] OTHER -> <<>>)
                          \o WrBytes(<<4, 9>>) \o (IF k.sk THEN WrBytes(A("ssh:")) ELSE <<>>)
    [] OTHER -> WrBytes(<<9, 9>>) \o (IF k.sk THEN WrBytes(A("ssh:")) ELSE <<>>)
Inner(q) == CASE At(q, "typ") = "own" -> A(q.kind) [] At(q, "typ") = "plain" -> A(KtNamed(q.kind).plain)
              [] At(q, "typ") = "other" -> (CASE KtNamed(q.kind).fam = "rsa" \/ q.kind = "sk-ssh-ed25519-cert-v01@openssh.com" -> A("ssh-ed25519-cert-v01@openssh.com")
                [] CurveOf(KtNamed(q.kind)) = A("nistp256") -> A("ecdsa-sha2-nistp384-cert-v01@openssh.com")
                [] KtNamed(q.kind).fam = "ecdsa" -> A("ecdsa-sha2-nistp256-cert-v01@openssh.com")
                [] OTHER -> A("ssh-rsa-cert-v01@openssh.com"))
              [] At(q, "typ") = "upper" -> <<83>> \o Tail(A(q.kind)) [] At(q, "typ") = "cut" -> Take(A(q.kind), Len(q.kind) - 1)
              [] OTHER -> <<>>
CaKey == [kt |-> "ssh-ed25519", p |-> <<<<7, 7>>>>]
Ca(q) == CASE At(q, "ca") = "own" -> EncodePub(CaKey) [] At(q, "ca") = "extra" -> EncodePub(CaKey) \o <<1>>
           [] At(q, "ca") = "cut" -> Take(EncodePub(CaKey), Len(EncodePub(CaKey)) - 1)
           [] At(q, "ca") = "cert" -> WrBytes(A("ssh-ed25519-cert-v01@openssh.com")) \o WrBytes(<<7, 7>>)
           [] At(q, "ca") = "none" -> <<>>
           [] OTHER -> WrBytes(A("ssh-ed448")) \o WrBytes(<<7, 7>>)
Tbs(q) == WrBytes(Inner(q)) \o WrBytes(At(q, "nonce").raw) \o Data(q) \o At(q, "serial").raw \o At(q, "role").raw \o WrBytes(At(q, "id").raw)
          \o WrBytes(At(q, "pr").raw) \o At(q, "va").raw \o At(q, "vb").raw \o WrBytes(At(q, "cr").raw) \o WrBytes(At(q, "ex").raw)
          \o WrBytes(At(q, "rs").raw) \o WrBytes(Ca(q))
\* perfect signatures, named by key and message
SigBlob(n, m) == WrBytes(A("ssh-ed25519")) \o WrBytes(<<n>> \o m)
Perfect(alg, key, msg, sig) == alg = "ed25519" /\ key = <<<<7, 7>>>> /\ sig = <<7>> \o msg
NoHash(x, y) == <<>>
OtherSerial(q) == [q EXCEPT !.serial = 1 + (@ % Len(Times))]
Sig(q, t) == CASE At(q, "sig") = "own" -> SigBlob(7, t)
            [] At(q, "sig") = "other key" -> SigBlob(8, t)
            [] At(q, "sig") = "other bytes" -> SigBlob(7, Take(t, Len(t) - 1))
            [] At(q, "sig") = "empty" -> <<>>
            [] At(q, "sig") = "unsigned nonce" -> SigBlob(7, WrBytes(Inner(q)) \o Drop(t, 8 + Len(Inner(q)) + Len(At(q, "nonce").raw)))
            [] At(q, "sig") = "twice" -> SigBlob(7, t \o t)
            [] At(q, "sig") = "other serial" -> SigBlob(7, Tbs(OtherSerial(q)))
            [] OTHER -> Take(SigBlob(7, t), Len(SigBlob(7, t)) - 1)
Whole(q, t) == LET s == WrBytes(Sig(q, t)) IN
            CASE At(q, "end") = "none" -> t \o s [] At(q, "end") = "extra" -> t \o s \o <<0>> [] At(q, "end") = "cut1" -> t \o Take(s, Len(s) - 1)
              [] At(q, "end") = "cut all" -> t [] OTHER -> t \o <<0, 0, 0, 0>>

(* ---- what the table says about it ---- *)
Tables == {"nonce", "serial", "role", "id", "pr", "va", "vb", "cr", "ex", "rs"}
Fine(q) == /\ At(q, "typ") = "own"
           /\ (KtNamed(q.kind).fam = "ecdsa" => At(q, "crv") = "own")
           /\ \A i \in Tables : At(q, i).ok
           /\ At(q, "ca") \in {"own", "extra"}
           /\ At(q, "sig") = "own" /\ At(q, "end") \in {"none", "extra"}

Init == /\ pick \in {[kind |-> k, n |-> 0] @@ [x \in DOMAIN Wheres |-> 1] : k \in Kinds}
        /\ seen = <<>>
Deviate == /\ seen = <<>> /\ pick.n < Devs
           /\ \E i \in DOMAIN Wheres : /\ pick[i] = 1
                                       /\ (i = "crv" => KtNamed(pick.kind).fam = "ecdsa")
                                       /\ \E j \in 2..Len(Wheres[i]) : pick' = [pick EXCEPT ![i] = j, !.n = @ + 1]
           /\ ~(pick'.typ = 3 /\ pick'.crv = 2)     \* together they are in order again
           /\ UNCHANGED seen
Raws == [x \in Tables |-> At(pick, x).raw]
Look == /\ seen = <<>>
        /\ \E t \in {Tbs(pick)} : \E w \in {Whole(pick, t)} : \E c \in {ImportCert(w, Perfect, NoHash)} :
             /\ seen' = <<c, w>>
             /\ PrintT("SCEN " \o ToJson([kind |-> pick.kind, ok |-> c.ok, raw |-> Raws, typ |-> Inner(pick), crv |-> At(pick, "crv"), ca |-> At(pick, "ca"),
                         sig |-> At(pick, "sig"), end |-> At(pick, "end"), other |-> OtherSerial(pick).serial,
                         pr |-> IF c.ok THEN c.c.pr ELSE <<>>, cr |-> IF c.ok THEN OptSeq(c.c.cr) ELSE <<>>, ex |-> IF c.ok THEN OptSeq(c.c.ex) ELSE <<>>]))
        /\ UNCHANGED pick
Next == Deviate \/ Look
Spec == Init /\ [][Next]_vars

\* C01, C02: accepted exactly when everything about it is in order, and then
\* every field is what the table says
TableAgrees ==
  seen # <<>> =>
    /\ seen[1].ok = Fine(pick)
    /\ seen[1].ok =>
         LET c == seen[1].c IN
         /\ c.kt = pick.kind /\ c.nonce = At(pick, "nonce").v /\ c.serial = At(pick, "serial").v /\ c.ct[4] = At(pick, "role").v
         /\ c.id = At(pick, "id").v /\ c.pr = At(pick, "pr").v /\ c.va = At(pick, "va").v /\ c.vb = At(pick, "vb").v
         /\ c.cr = At(pick, "cr").v /\ c.ex = At(pick, "ex").v /\ c.rs = At(pick, "rs").v /\ c.ca = CaKey
\* what is signed is all that precedes the signature: any other bytes before
\* it, and the same signature is refused
AllSigned ==
  seen # <<>> /\ seen[1].ok /\ pick.n = 0 =>
    \A i \in 1..Len(seen[1].tbs) : ~ImportCert([seen[2] EXCEPT ![i] = (@ + 1) % 256], Perfect, NoHash).ok
=============================================================================
