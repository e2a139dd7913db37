-------------------------------- MODULE Keys --------------------------------
(* Public keys: [kt |-> name, p |-> components].  Components: RSA <<e, n>>, *)
(* ECDSA <<curve, point>>, Ed25519 <<key>>; security keys add the           *)
(* application string at the end.                                           *)
EXTENDS KeyTypes

PubSchema(k) ==
  CASE k.fam = "rsa" -> <<"m", "m">>
    [] k.fam = "ecdsa" -> IF k.sk THEN <<"s", "b", "s">> ELSE <<"s", "b">>
    [] OTHER -> IF k.sk THEN <<"b", "s">> ELSE <<"b">>

PubOk(k, p) == k.fam = "ecdsa" => p[1] = CurveOf(k)
Pub(k, p) == [kt |-> k.name, p |-> p]
NoPub == [ok |-> FALSE, key |-> [kt |-> "", p |-> <<>>], o |-> 0]

\* key data of type k at offset o
ParsePubData(k, b, o) ==
  IF k = NoKt \/ k.cert THEN NoPub
  ELSE LET d == Decode(PubSchema(k), b, o) IN
       IF d.st = "ok" /\ PubOk(k, d.v) THEN [ok |-> TRUE, key |-> Pub(k, d.v), o |-> d.o] ELSE NoPub
\* a public key blob; bytes after the key data are not looked at
ParsePub(b) ==
  LET t == RdString(b, 0) IN
  IF t.st # "ok" THEN NoPub ELSE ParsePubData(Kt(t.v), b, t.o)

PubData(key) ==
  LET k == KtNamed(key.kt) IN
  IF k.fam = "rsa" THEN WrMpint(key.p[1]) \o WrMpint(key.p[2])
  ELSE Flatten([i \in 1..Len(key.p) |-> WrBytes(key.p[i])])
\* the encoding used for fingerprints, certificates' CA field and key files
EncodePub(key) == WrBytes(A(KtNamed(key.kt).plain)) \o PubData(key)
\* the encoding used inside private key files and detached signatures
EncodePubNamed(key) == WrBytes(A(key.kt)) \o PubData(key)

\* a public key line: type, base64, optional comment (one word)
ParsePubLine(t) ==
  LET w == SplitWs(t)
      d == IF Len(w) < 2 THEN [ok |-> FALSE, b |-> <<>>] ELSE B64Dec(w[2])
      in == ParsePub(d.b)
      name == RdString(d.b, 0)
      ok == /\ Len(w) >= 2
            /\ KnownKt(w[1])
            /\ d.ok
            /\ name.st = "ok" /\ name.v = w[1]
            /\ in.ok
  IN [ok |-> ok, key |-> in.key, cm |-> IF Len(w) >= 3 THEN <<Utf8Enc(w[3])>> ELSE <<>>]

PubBits(key) == LET k == KtNamed(key.kt) IN
  CASE k.fam = "rsa" -> Len(key.p[2]) * 8
    [] k.fam = "ecdsa" -> CurveBits(key.p[1])
    [] OTHER -> 256
PubLine(key, cm) == A(KtNamed(key.kt).plain) \o <<32>> \o B64(EncodePub(key)) \o (IF cm = <<>> THEN <<>> ELSE <<32>> \o cm[1])
=============================================================================
