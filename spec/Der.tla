-------------------------------- MODULE Der --------------------------------
(* DER, X.509 and the attestation chains.                                   *)
EXTENDS Fido

\* element at offset o within b, not beyond e: [ok, tag, s, e] (content s..e)
Elem(b, o, e) ==
  IF o + 2 > e THEN [ok |-> FALSE]
  ELSE LET l == b[o+2]
           n == IF l < 128 THEN 0 ELSE l - 128
           s == o + 2 + n
       IN IF n > 3 \/ l = 128 \/ s > e THEN [ok |-> FALSE]
          ELSE LET len == IF n = 0 THEN l
                          ELSE FoldLeft(LAMBDA a, x : a * 256 + x, 0, SubSeq(b, o + 3, o + 2 + n))
                   canon == CASE n = 0 -> TRUE [] n = 1 -> len >= 128 [] n = 2 -> len >= 256 [] OTHER -> len >= 65536
               IN IF s + len > e \/ ~canon THEN [ok |-> FALSE]
                  ELSE [ok |-> TRUE, tag |-> b[o+1], s |-> s, e |-> s + len, o |-> o]
ElemsFrom(b, o, e) ==
  Loop((e - o) \div 2 + 1, LAMBDA a : a.ok /\ a.o # e,
       LAMBDA a : LET x == Elem(b, a.o, e) IN
                  IF x.ok THEN [ok |-> TRUE, v |-> Append(a.v, x), o |-> x.e] ELSE [ok |-> FALSE, v |-> a.v, o |-> a.o],
       [ok |-> TRUE, v |-> <<>>, o |-> o])
Kids(b, x) == ElemsFrom(b, x.s, x.e)
Content(b, x) == SubSeq(b, x.s + 1, x.e)
Whole(b, x) == SubSeq(b, x.o + 1, x.e)
Tags(ks) == [i \in 1..Len(ks) |-> ks[i].tag]

OidEc    == <<42,134,72,206,61,2,1>>
OidP256  == <<42,134,72,206,61,3,1,7>>
OidP384  == <<43,129,4,0,34>>
OidFwPiv == <<43,6,1,4,1,130,196,10,3,3>>
OidSnPiv == <<43,6,1,4,1,130,196,10,3,7>>
OidPolPiv == <<43,6,1,4,1,130,196,10,3,8>>
OidFwFido == <<43,6,1,4,1,130,196,10,13,1>>
OidAaguid == <<43,6,1,4,1,130,229,28,1,1,4>>
OidTrans == <<43,6,1,4,1,130,229,28,2,1,1>>

\* SubjectPublicKeyInfo: [ok, alg, param, bits]; param <<>> or <<oid>>
Spki(b, x) ==
  LET k == Kids(b, x) IN
  IF ~k.ok \/ Tags(k.v) # <<48, 3>> THEN [ok |-> FALSE]
  ELSE LET a == Kids(b, k.v[1])
           bs == Content(b, k.v[2])
       IN IF ~a.ok \/ Len(a.v) \notin {1, 2} \/ a.v[1].tag # 6 \/ bs = <<>> THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, alg |-> Content(b, a.v[1]), n |-> Len(a.v),
                param |-> IF Len(a.v) = 2 /\ a.v[2].tag = 6 THEN <<Content(b, a.v[2])>> ELSE <<>>,
                bits |-> Tail(bs)]
SpkiKey(s) ==
  IF ~s.ok \/ s.alg # OidEc \/ s.param = <<>> THEN [ok |-> FALSE]
  ELSE CASE s.param[1] = OidP256 -> [ok |-> TRUE, key |-> [kt |-> "ecdsa-sha2-nistp256", p |-> <<A("nistp256"), s.bits>>]]
         [] s.param[1] = OidP384 -> [ok |-> TRUE, key |-> [kt |-> "ecdsa-sha2-nistp384", p |-> <<A("nistp384"), s.bits>>]]
         [] OTHER -> [ok |-> FALSE]

\* a DER public key
DerPub(b) ==
  LET x == Elem(b, 0, Len(b)) IN
  IF ~x.ok \/ x.tag # 48 THEN [ok |-> FALSE] ELSE SpkiKey(Spki(b, x))

\* extensions element ([3]) -> sequence of <<oid, value>>
ExtList(b, x) ==
  LET l == Kids(b, x) IN
  IF ~l.ok \/ Tags(l.v) # <<48>> THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET es == Kids(b, l.v[1])
           ks == [i \in 1..Len(es.v) |-> Kids(b, es.v[i])]
           Good(i) == es.v[i].tag = 48 /\ ks[i].ok /\ Tags(ks[i].v) \in {<<6, 4>>, <<6, 1, 4>>}
       IN IF ~es.ok \/ \E i \in 1..Len(es.v) : ~Good(i) THEN [ok |-> FALSE, v |-> <<>>]
          ELSE [ok |-> TRUE, v |-> [i \in 1..Len(es.v) |->
                  <<Content(b, ks[i].v[1]), Content(b, ks[i].v[Len(ks[i].v)])>>]]

NoX509 == [ok |-> FALSE]
\* [ok, tbs, alg, sig, spki, ext]
X509(b) ==
  LET x == Elem(b, 0, Len(b)) IN
  IF ~x.ok \/ x.tag # 48 THEN NoX509
  ELSE LET k == Kids(b, x) IN
       IF ~k.ok \/ Tags(k.v) # <<48, 48, 3>> THEN NoX509
       ELSE LET a == Kids(b, k.v[2])
                t == Kids(b, k.v[1])
                off == IF t.ok /\ t.v # <<>> /\ t.v[1].tag = 160 THEN 1 ELSE 0
                sig == Content(b, k.v[3])
            IN IF \/ ~a.ok \/ a.v = <<>> \/ ~t.ok \/ Len(t.v) < off + 6 \/ sig = <<>>
                  \/ SubSeq(Tags(t.v), off + 1, off + 6) # <<2, 48, 48, 48, 48, 48>>
               THEN NoX509
               ELSE LET rest == SubSeq(t.v, off + 7, Len(t.v))
                        ex == {i \in 1..Len(rest) : rest[i].tag = 163}
                        el == IF ex = {} THEN [ok |-> TRUE, v |-> <<>>] ELSE ExtList(b, rest[CHOOSE i \in ex : TRUE])
                    IN IF ~el.ok THEN NoX509
                       ELSE [ok |-> TRUE, tbs |-> Whole(b, k.v[1]), alg |-> Content(b, a.v[1]), sig |-> Tail(sig),
                             spki |-> Spki(b, t.v[off + 6]), ext |-> el.v]
\* the subject key of a certificate signing request
CsrSpki(b) ==
  LET x == Elem(b, 0, Len(b)) IN
  IF ~x.ok \/ x.tag # 48 THEN [ok |-> FALSE]
  ELSE LET k == Kids(b, x) IN
       IF ~k.ok \/ Tags(k.v) # <<48, 48, 3>> THEN [ok |-> FALSE]
       ELSE LET t == Kids(b, k.v[1]) IN
            IF ~t.ok \/ Len(t.v) < 3 \/ SubSeq(Tags(t.v), 1, 3) # <<2, 48, 48>> THEN [ok |-> FALSE]
            ELSE Spki(b, t.v[3])

\* the common name, if a name consists of nothing else: <<>> or <<octets>>
OidCn == <<85, 4, 3>>
OnlyCn(b, x) ==
  LET r == Kids(b, x) IN
  IF ~r.ok \/ Tags(r.v) # <<49>> THEN <<>>
  ELSE LET a == Kids(b, r.v[1]) IN
       IF ~a.ok \/ Tags(a.v) # <<48>> THEN <<>>
       ELSE LET v == Kids(b, a.v[1]) IN
            IF ~v.ok \/ Len(v.v) # 2 \/ v.v[1].tag # 6 \/ Content(b, v.v[1]) # OidCn \/ v.v[2].tag \notin {12, 19} THEN <<>>
            ELSE <<Content(b, v.v[2])>>
\* of well-formed certificates and requests
CertCn(b) ==
  LET t == Kids(b, Kids(b, Elem(b, 0, Len(b))).v[1]).v
      off == IF t[1].tag = 160 THEN 1 ELSE 0
  IN OnlyCn(b, t[off + 5])
CsrParts(b) == Kids(b, Elem(b, 0, Len(b))).v
CsrTbs(b) == Whole(b, CsrParts(b)[1])
CsrCn(b) == OnlyCn(b, Kids(b, CsrParts(b)[1]).v[2])
CsrSig(b) == Tail(Content(b, CsrParts(b)[3]))

\* last extension value with that OID for which Ok holds: <<>> or <<value>>
Ext(exts, oid, Ok(_)) ==
  LET s == SelectSeq(exts, LAMBDA x : x[1] = oid /\ Ok(x[2])) IN
  IF s = <<>> THEN <<>> ELSE <<s[Len(s)][2]>>
Exts(exts, oid) == SelectSeq(exts, LAMBDA x : x[1] = oid)

\* signed by: facts (algorithm OID, key bits, tbs, signature)
SignedBy(c, issuer, IsX509Fact(_, _, _, _)) ==
  c.ok /\ issuer.ok /\ issuer.spki.ok /\ IsX509Fact(c.alg, issuer.spki.bits, c.tbs, c.sig)

Dotted(v) == DecNat(v[1]) \o <<46>> \o DecNat(v[2]) \o <<46>> \o DecNat(v[3])

(* ---- PIV attestation ---- *)
PivSerial(v) ==  \* value of the extension -> <<8 bytes>> or <<>>
  LET x == Elem(v, 0, Len(v)) IN
  IF ~x.ok \/ x.tag # 2 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET c == Content(v, x) IN
       [ok |-> TRUE, v |-> IF Len(c) <= 8 THEN <<PadTo(c, 8)>> ELSE <<>>]
PivVerify(leaf, inter, root, IsX509Fact(_, _, _, _)) ==
  LET l == X509(leaf)  i == X509(inter)  r == X509(root) IN
  IF ~SignedBy(i, r, IsX509Fact) \/ ~SignedBy(l, i, IsX509Fact) THEN [ok |-> FALSE]
  ELSE LET key == SpkiKey(l.spki)
           fw == Ext(l.ext, OidFwPiv, LAMBDA v : Len(v) = 3)
           sns == Exts(l.ext, OidSnPiv)
           sn == Ext(l.ext, OidSnPiv, LAMBDA v : PivSerial(v).v # <<>>)
           po == Ext(l.ext, OidPolPiv, LAMBDA v : Len(v) >= 2)
       IN IF \/ ~key.ok \/ fw = <<>> \/ sn = <<>> \/ po = <<>>
             \/ \E j \in 1..Len(sns) : ~PivSerial(sns[j][2]).ok
          THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, key |-> key.key, fw |-> Dotted(fw[1]), sn |-> PivSerial(sn[1]).v[1],
                pin |-> po[1][1], touch |-> po[1][2]]

(* ---- FIDO attestation ---- *)
InnerOctets(v) == LET x == Elem(v, 0, Len(v)) IN
  IF ~x.ok \/ x.tag # 4 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> Content(v, x)]
InnerBits(v) == LET x == Elem(v, 0, Len(v)) IN
  IF ~x.ok \/ x.tag # 3 \/ x.e = x.s THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> Tail(Content(v, x))]
TransportNames == <<"Bluetooth", "BluetoothLE", "USB", "NFC", "USBInternal">>
BitSet(bs, i) == bs # <<>> /\ Bit(bs[1], <<128, 64, 32, 16, 8>>[i])
TransportList(bs) == SelectSeq(TransportNames, LAMBDA n : \E i \in 1..5 : TransportNames[i] = n /\ BitSet(bs, i))
FidoVerify(ad, sig, ch, alg, inter, root, IsX509Fact(_, _, _, _), IsFact(_, _, _, _)) ==
  LET i == X509(inter)  r == X509(root)  a == ParseAuth(ad)
  IN IF \/ alg # -7
        \/ ~SignedBy(i, r, IsX509Fact)
        \/ ~IsFact("p256der", <<i.spki.bits>>, ad \o ch, sig)
        \/ ~a.ok
     THEN [ok |-> FALSE]
     ELSE LET fws == Exts(i.ext, OidFwFido)  ags == Exts(i.ext, OidAaguid)  trs == Exts(i.ext, OidTrans)
              bad == \/ \E j \in 1..Len(fws) : ~InnerOctets(fws[j][2]).ok
                     \/ \E j \in 1..Len(ags) : ~InnerOctets(ags[j][2]).ok
                     \/ \E j \in 1..Len(trs) : ~InnerBits(trs[j][2]).ok
              fw == Ext(i.ext, OidFwFido, LAMBDA v : Len(InnerOctets(v).v) = 3)
              ag == Ext(i.ext, OidAaguid, LAMBDA v : Len(InnerOctets(v).v) = 16)
              tr == Ext(i.ext, OidTrans, LAMBDA v : TRUE)
          IN IF bad THEN [ok |-> FALSE]
             ELSE [ok |-> TRUE, auth |-> a,
                   fw |-> IF fw = <<>> THEN <<>> ELSE <<Dotted(InnerOctets(fw[1]).v)>>,
                   aaguid |-> IF ag = <<>> THEN <<>> ELSE <<InnerOctets(ag[1]).v>>,
                   tr |-> IF tr = <<>> THEN <<>> ELSE <<TransportList(InnerBits(tr[1]).v)>>]

(* ---- ECDSA DER signatures ---- *)
NoRs == [ok |-> FALSE, r |-> <<>>, s |-> <<>>, open |-> FALSE]
\* open: the outer length byte is wrong or r is empty; the result is then open
DerRs(b) ==
  IF Len(b) < 4 \/ b[1] # 48 \/ b[3] # 2 THEN NoRs
  ELSE LET rl == b[4]
           o == 4 + rl          \* offset of the second integer
       IN IF Len(b) < o + 3 \/ b[o + 1] # 2 \/ Len(b) - (o + 2) # b[o + 2] THEN NoRs
          ELSE [ok |-> TRUE, r |-> SubSeq(b, 5, 4 + rl), s |-> SubSeq(b, o + 3, Len(b)),
                open |-> b[2] # Len(b) - 2 \/ rl = 0]
RsSsh(d) == WrBytes(d.r) \o WrBytes(d.s)
FormatSig(key, sig) ==
  LET k == KtNamed(key.kt) IN
  CASE k.fam = "ecdsa" -> IF DerRs(sig).ok THEN <<WrBytes(A(key.kt)) \o WrBytes(RsSsh(DerRs(sig)))>> ELSE <<>>
    [] k.fam = "rsa" -> <<WrBytes(A("rsa-sha2-512")) \o WrBytes(sig)>>
    [] OTHER -> <<WrBytes(A(key.kt)) \o WrBytes(sig)>>
=============================================================================
