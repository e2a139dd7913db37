-------------------------------- MODULE Cert --------------------------------
(* SSH certificates (PROTOCOL.certkeys).                                    *)
EXTENDS Crypto

\* An abstract certificate.  u64 and u32 values are byte strings.
\* principals: sequence of strings; crit/ext: set of <<name, value>>
CertTail == <<"u8", "u4", "s", "b", "u8", "u8", "b", "b", "b", "b">>

OptValue(buf) == IF buf = <<>> THEN [ok |-> TRUE, v |-> <<>>]
                 ELSE LET r == RdString(buf, 0) IN [ok |-> r.st = "ok", v |-> r.v]
ParseOptions(b) ==
  LET d == DecodeAll(<<"s", "b">>, b)
      n == Len(d.v)
      vals == Strict([i \in 1..n |-> OptValue(d.v[i][2])])
      ok == /\ d.ok
            /\ \A i \in 1..n : vals[i].ok
            /\ Cardinality({d.v[i][1] : i \in 1..n}) = n
  IN [ok |-> ok, v |-> IF ok THEN {<<d.v[i][1], vals[i].v>> : i \in 1..n} ELSE {}]
ParsePrincipals(b) ==
  LET d == DecodeAll(<<"s">>, b) IN [ok |-> d.ok, v |-> Strict([i \in 1..Len(d.v) |-> d.v[i][1]])]

User == <<0, 0, 0, 1>>
Host == <<0, 0, 0, 2>>

NoCert == [ok |-> FALSE]
\* Structure only; tbs is the signed prefix
ParseCertStruct(b) ==
  LET h == Decode(<<"s", "b">>, b, 0)
      k == IF h.st = "ok" THEN Kt(h.v[1]) ELSE NoKt
  IN IF h.st # "ok" \/ k = NoKt \/ ~k.cert THEN NoCert
     ELSE LET pk == ParsePubData(PlainKtOf(k), b, h.o)
              d  == Decode(CertTail, b, pk.o)
          IN IF ~pk.ok \/ d.st # "ok" THEN NoCert
             ELSE LET sg == RdBytes(b, d.o)
                      pr == ParsePrincipals(d.v[4])
                      cr == ParseOptions(d.v[7])
                      ex == ParseOptions(d.v[8])
                      ca == ParsePub(d.v[10])
                  IN IF /\ sg.st = "ok" /\ pr.ok /\ cr.ok /\ ex.ok /\ ca.ok
                        /\ d.v[2] \in {User, Host}
                     THEN [ok |-> TRUE, tbs |-> Take(b, d.o),
                           c |-> [kt |-> k.name, nonce |-> h.v[2], key |-> pk.key, serial |-> d.v[1],
                                  ct |-> d.v[2], id |-> d.v[3], pr |-> pr.v, va |-> d.v[5], vb |-> d.v[6],
                                  cr |-> cr.v, ex |-> ex.v, rs |-> d.v[9], ca |-> ca.key, sig |-> sg.v]]
                     ELSE NoCert

\* What importing the bytes b must give
ImportCert(b, IsFact(_, _, _, _), HashOf(_, _)) ==
  LET s == ParseCertStruct(b) IN
  IF ~s.ok THEN NoCert
  ELSE IF VerifySig(s.c.ca, s.c.sig, s.tbs, IsFact, HashOf) THEN s ELSE NoCert

\* What importing the text t must give: label, base64 body, optional comment
ImportCertText(t, IsFact(_, _, _, _), HashOf(_, _)) ==
  LET w == SplitWs(t)
      d == IF Len(w) < 2 THEN [ok |-> FALSE, b |-> <<>>] ELSE B64Dec(w[2])
      s == ImportCert(d.b, IsFact, HashOf)
  IN IF Len(w) >= 2 /\ d.ok /\ s.ok /\ w[1] = A(s.c.kt)
     THEN [ok |-> TRUE, c |-> s.c, b |-> d.b, cm |-> IF Len(w) >= 3 THEN <<Utf8Enc(w[3])>> ELSE <<>>]
     ELSE [ok |-> FALSE, c |-> <<>>, b |-> <<>>, cm |-> <<>>]

\* The to-be-signed encoding
EncodeTbs(c) ==
  WrBytes(A(c.kt)) \o WrBytes(c.nonce) \o PubData(c.key) \o c.serial \o c.ct \o WrBytes(c.id)
  \o WrStrings(c.pr) \o c.va \o c.vb \o WrOptions(c.cr) \o WrOptions(c.ex)
  \o WrBytes(c.rs) \o WrBytes(EncodePub(c.ca))
EncodeCert(c) == EncodeTbs(c) \o WrBytes(c.sig)

(* ---- builder ---- *)
SetOpt(opts, n, v) == {o \in opts : o[1] # n} \cup {<<n, v>>}
NewCert(key, ct, ca, nonce, serial) ==
  [kt |-> CertKtOf(KtNamed(key.kt)).name, nonce |-> nonce, key |-> key, serial |-> serial, ct |-> ct,
   id |-> <<>>, pr |-> <<>>, va |-> Zeros(8), vb |-> Zeros(8), cr |-> {}, ex |-> {}, rs |-> <<>>,
   ca |-> ca, sig |-> <<>>]
=============================================================================
