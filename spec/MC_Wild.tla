------------------------------ MODULE MC_Wild ------------------------------
(* Hostile input.  Every format is a row of fields; an adversary replaces   *)
(* up to Devs of them: other contents, and lengths that are too short, too  *)
(* long, or enormous.  The input may also stop in the middle.  The decoders *)
(* of the specification give every such input a verdict and never look      *)
(* beyond its end; each input is fed to every entry point of the library.   *)
EXTENDS PrivKey, Json

CONSTANTS Devs,     \* format -> how many fields may be replaced
          Types,
          Stops     \* with fewer replacements than this it may also stop early

VARIABLES run,      \* [fmt, fields, n, cut]
          verdict   \* <<>> or the verdicts of the decoders
vars == <<run, verdict>>

QuickDevs == [pub |-> 2, cert |-> 1, sig |-> 1, inner |-> 1, section |-> 1, file |-> 1]
DeepDevs == [pub |-> 2, cert |-> 1, sig |-> 2, inner |-> 2, section |-> 1, file |-> 2]
QuickTypes == {"ssh-rsa", "ecdsa-sha2-nistp256", "ssh-ed25519", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com"}
DeepTypes == QuickTypes \cup {"ecdsa-sha2-nistp384"}

Z(n) == Zeros(n)
Parts(t) ==
  LET k == KtNamed(t) IN
  CASE k.fam = "rsa" -> <<<<1, 0, 1>>, <<0>> \o [i \in 1..32 |-> 201]>>
    [] k.fam = "ecdsa" -> <<CurveOf(k), <<4>> \o Z(64)>> \o (IF k.sk THEN <<A("ssh:")>> ELSE <<>>)
    [] OTHER -> <<Z(32)>> \o (IF k.sk THEN <<A("ssh:")>> ELSE <<>>)
P(v) == [k |-> "b", v |-> v, len |-> "exact"]     \* with a length in front
R(v) == [k |-> "r", v |-> v, len |-> "exact"]     \* just bytes
Ps(q) == [i \in 1..Len(q) |-> P(q[i])]
PubBlob == WrBytes(A("ssh-ed25519")) \o WrBytes(Z(32))
SigPart == WrBytes(A("ssh-ed25519")) \o WrBytes(Z(64))
\* the secret parts that follow the public ones in a private key
SecretParts(t) ==
  LET k == KtNamed(t)  m == <<0>> \o [i \in 1..16 |-> 201] IN
  CASE k.fam = "rsa" -> Ps(<<<<0>> \o [i \in 1..32 |-> 201], <<1, 0, 1>>, m, m, m, m>>)
    [] k.sk -> Ps(Parts(t)) \o <<R(<<1>>), P(A("handle")), P(<<>>)>>
    [] OTHER -> Ps(Parts(t)) \o <<P(Z(32))>>
Body(f) == Flatten([i \in 1..Len(f) |-> IF f[i].k = "b" THEN WrBytes(f[i].v) ELSE f[i].v])
Fields(fmt, t) ==
  CASE fmt = "pub" -> <<P(A(t))>> \o Ps(Parts(t))
    [] fmt = "cert" -> <<P(A(CertKtOf(KtNamed(t)).name)), P(Z(32))>> \o Ps(Parts(t))
                       \o <<R(Z(8)), R(<<0, 0, 0, 1>>), P(A("id")), P(WrBytes(A("a"))), R(Z(8)), R(Z(8)), P(<<>>),
                            P(WrBytes(A("permit-pty")) \o WrBytes(<<>>)), P(<<>>), P(PubBlob), P(SigPart)>>
    [] fmt = "sig" -> <<R(A("SSHSIG")), R(U32(1)), P(PubBlob), P(A("file")), P(<<>>), P(A("sha512")), P(SigPart)>>
    [] fmt = "inner" -> <<P(A(t))>> \o SecretParts(t) \o <<P(A("c"))>>
    [] fmt = "section" -> <<R(Z(4)), R(Z(4)), P(A(t))>> \o SecretParts(t) \o <<P(A("c"))>>
    [] fmt = "file" -> <<R(A("openssh-key-v1")), R(<<0>>), P(A("none")), P(A("none")), P(<<>>), R(U32(1)),
                         P(Body(<<P(A(t))>> \o Ps(Parts(t)))), P(Z(8) \o Body(<<P(A(t))>> \o SecretParts(t) \o <<P(A("c"))>>))>>
Lens == {"exact", "less", "more", "none", "half", "all"}
\* what a field may be replaced with
Contents(v) == {v, <<>>, <<0>>, <<255>>, A("nistp521"), WrBytes(<<>>), WrBytes(A("x")) \o WrBytes(<<>>), Take(v, Len(v) - (IF v = <<>> THEN 0 ELSE 1))}
Declared(f) == LET n == Len(f.v) IN
  CASE f.len = "less" -> U32(IF n = 0 THEN 0 ELSE n - 1) [] f.len = "more" -> U32(n + 1) [] f.len = "none" -> U32(0)
    [] f.len = "half" -> <<127, 255, 255, 255>> [] f.len = "all" -> <<255, 255, 255, 255>> [] OTHER -> U32(n)
Wire1(f) == IF f.k = "b" THEN Declared(f) \o f.v ELSE f.v
Start2(v) == Take(v, IF Len(v) < 2 THEN Len(v) ELSE 2)
Whole(x) == Flatten([i \in 1..Len(x.fields) |-> Wire1(x.fields[i])])
Bytes1(x) == IF x.cut < 0 THEN Whole(x) ELSE Flatten([i \in 1..x.cut |-> Wire1(x.fields[i])]) \o (IF x.cut < Len(x.fields) THEN Start2(Wire1(x.fields[x.cut + 1])) ELSE <<>>)
\* a private section travels in a key file
Sent(x) == IF x.fmt = "section" THEN A("openssh-key-v1") \o <<0>> \o WrBytes(A("none")) \o WrBytes(A("none")) \o WrBytes(<<>>) \o U32(1)
                                     \o WrBytes(Body(<<P(A(x.t))>> \o Ps(Parts(x.t)))) \o WrBytes(Bytes1(x))
           ELSE Bytes1(x)

Init == /\ \E fmt \in DOMAIN Devs, t \in Types :
             run = [fmt |-> fmt, t |-> t, fields |-> Fields(fmt, t), n |-> 0, at |-> 0, cut |-> -1]
        /\ (run.fmt = "sig" => run.t = "ssh-ed25519")
        /\ verdict = <<>>
Replace == /\ verdict = <<>> /\ run.n < Devs[run.fmt] /\ run.cut < 0
           /\ \E i \in (run.at + 1)..Len(run.fields) :
                LET f == run.fields[i] IN
                \E v \in Contents(f.v), c \in Lens :
                  /\ (f.k = "r" => c = "exact") /\ (v # f.v \/ c # "exact")
                  /\ run' = [run EXCEPT !.fields[i].v = v, !.fields[i].len = c, !.n = @ + 1, !.at = i]
           /\ UNCHANGED verdict
Stop == /\ verdict = <<>> /\ run.cut < 0 /\ run.n < Stops
        /\ \E i \in 0..(Len(run.fields) - 1) : run' = [run EXCEPT !.cut = i]
        /\ UNCHANGED verdict
NoHash(a, x) == <<>>
NoFact(a, b, x, d) == FALSE
NoStream(a, b, x) == <<>>
Read == /\ verdict = <<>>
        /\ \E b \in {Sent(run)} :
             verdict' = <<ParsePub(b).ok, ImportCert(b, NoFact, NoHash).ok, ParseSigBlob(b).ok, ParsePrivData(b, 0).ok,
                          OpenPriv(b, <<>>, NoStream).st, RdString(b, 0).o, Len(b)>>
        /\ UNCHANGED run
Next == Replace \/ Stop \/ Read
Spec == Init /\ [][Next]_vars

(* ---- C17 ---- *)
Total == verdict # <<>> => /\ \A i \in 1..4 : verdict[i] \in BOOLEAN
                           /\ verdict[5] \in {"ok", "err", "enc", "unsup"}
                           /\ verdict[6] <= verdict[7]
\* an unsigned certificate is never accepted
Unsigned == verdict # <<>> => ~verdict[2]
\* what was not touched is understood
Understood == (verdict # <<>> /\ run.n = 0 /\ run.cut < 0) =>
                CASE run.fmt = "pub" -> verdict[1] [] run.fmt = "sig" -> verdict[3] [] run.fmt = "inner" -> verdict[4]
                  [] run.fmt \in {"file", "section"} -> verdict[5] = "ok" [] OTHER -> TRUE
Scenario == verdict # <<>> => PrintT("SCEN " \o ToJson([fmt |-> run.fmt, b |-> Sent(run), v |-> verdict]))
=============================================================================
