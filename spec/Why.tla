-------------------------------- MODULE Why --------------------------------
(* Why something is refused.  A cause is <<kind, argument>>: the kind is    *)
(* the library's error, the argument the offending name or value (bytes).   *)
(* The operators give the set of causes actually present in an input that   *)
(* must be refused; the error reported has to be one of them.  The order in *)
(* which faults are looked for is left open.                                *)
EXTENDS Render, Builder

Cause(k) == <<k, <<>>>>
Malformed == {Cause("InvalidFormat"), Cause("ParsingError")}
CutShort == Malformed \cup {Cause("UnexpectedEof")}
NotText == {Cause("Utf8Error")}
NotB64 == {Cause("Decode")}
Mismatch == {Cause("KeyTypeMismatch")}
BadSig == {Cause("InvalidSignature")}
Unsup == {Cause("Unsupported")}
NoType(name) == {<<"UnknownKeyType", name>>}
NoCurve(name) == {<<"UnknownCurve", name>>}
When(p, s) == IF p THEN s ELSE {}

\* why the field at o cannot be read
FieldWhy(ty, b, o) ==
  LET r == RdField(ty, b, o) IN
  IF r.st = "ok" THEN {}
  ELSE IF ty \in {"s", "m"} /\ RdBytes(b, o).st = "ok" THEN (IF ty = "s" THEN NotText ELSE Malformed)
  ELSE CutShort
\* ... the first of a sequence of fields that cannot be read
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(schema, i, b, o) ==
  IF i > Len(schema) THEN {}
  ELSE LET r == RdField(schema[i], b, o) IN
       IF r.st = "ok" THEN WalkFrom(schema, i + 1, b, r.o) ELSE FieldWhy(schema[i], b, o)
WalkWhy(schema, b, o) == WalkFrom(schema, 1, b, o)
\* ... of repeated groups
WalkAllWhy(schema, b) == LET r == DecodeGroups(schema, b) IN IF r.st = "ok" THEN {} ELSE WalkWhy(schema, b, r.o)

(* ---- public keys ---- *)
CurveWhy(k, b, o) ==
  LET c == RdString(b, o) IN
  IF k.fam # "ecdsa" \/ c.st # "ok" \/ c.v = CurveOf(k) THEN {}
  ELSE IF c.v \in CurveBytes THEN Mismatch ELSE NoCurve(c.v)
PubDataWhy(k, b, o) == WalkWhy(PubSchema(k), b, o) \cup CurveWhy(k, b, o)
PubWhy(b) ==
  LET t == RdString(b, 0) IN
  IF t.st # "ok" THEN FieldWhy("s", b, 0)
  ELSE IF ~KnownKt(t.v) THEN NoType(t.v)
  ELSE IF Kt(t.v).cert THEN Mismatch
  ELSE PubDataWhy(Kt(t.v), b, t.o)
LabelWhy(label, b) ==
  LET t == RdString(b, 0) IN
  When(~KnownKt(label), NoType(Utf8Enc(label))) \cup When(t.st = "ok" /\ t.v # label, Mismatch)
PubLineWhy(t) ==
  LET w == SplitWs(t) IN
  IF Len(w) < 2 THEN Malformed \cup When(Len(w) = 1 /\ ~KnownKt(w[1]), NoType(Utf8Enc(w[1])))
  ELSE LET d == B64Dec(w[2]) IN
       IF d.ok THEN LabelWhy(w[1], d.b) \cup PubWhy(d.b)
       ELSE NotB64 \cup When(~KnownKt(w[1]), NoType(Utf8Enc(w[1])))

(* ---- signatures ---- *)
\* why sigBlob is no signature under key, whatever was signed
SigBlobWhy(key, sigBlob) ==
  LET k == KtNamed(key.kt)
      t == RdString(sigBlob, 0)
      s == Kt(t.v)
      sch == Scheme(k.fam, s.name)
      body == RdBytes(sigBlob, t.o)
      rs == Decode(<<"m", "m">>, body.v, 0)
  IN IF t.st # "ok" THEN FieldWhy("s", sigBlob, 0)
     ELSE IF ~KnownKt(t.v) THEN NoType(t.v)
     ELSE IF s.kind # k.kind \/ sch = NoScheme THEN Mismatch \cup When(body.st # "ok", CutShort)
     ELSE IF body.st # "ok" THEN CutShort
     ELSE When(k.fam = "ecdsa",
               IF rs.st # "ok" THEN WalkWhy(<<"m", "m">>, body.v, 0)
               ELSE When(Len(rs.v[1]) > sch.len \/ Len(rs.v[2]) > sch.len, Malformed))
          \cup When(k.sk, WalkWhy(<<"r1", "u4">>, sigBlob, body.o))
\* a signature that does not hold is always also just that: invalid
SigWhy(key, sigBlob) == SigBlobWhy(key, sigBlob) \cup BadSig

(* ---- certificates ---- *)
OptWhy(b) ==
  LET d == DecodeAll(<<"s", "b">>, b)
      n == Len(d.v)
  IN WalkAllWhy(<<"s", "b">>, b)
     \cup UNION {When(d.v[i][2] # <<>>, FieldWhy("s", d.v[i][2], 0)) : i \in 1..n}
     \cup When(Cardinality({d.v[i][1] : i \in 1..n}) # n, Malformed)
CertWhy(b, IsFact(_, _, _, _), HashOf(_, _)) ==
  LET h == RdString(b, 0)
      k == Kt(h.v)
      n == RdBytes(b, h.o)
  IN IF h.st # "ok" THEN FieldWhy("s", b, 0)
     ELSE IF ~KnownKt(h.v) THEN NoType(h.v)
     ELSE IF ~k.cert THEN {Cause("NotCertificate")}
     ELSE IF n.st # "ok" THEN CutShort
     ELSE LET pk == ParsePubData(PlainKtOf(k), b, n.o)
              d == Decode(CertTail \o <<"b">>, b, pk.o)
              m == Len(d.v)
              Has(i) == m >= i
              ca == ParsePub(d.v[10])
              tbs == Take(b, Decode(CertTail, b, pk.o).o)
          IN IF ~pk.ok THEN PubDataWhy(PlainKtOf(k), b, n.o)
             ELSE WalkWhy(CertTail \o <<"b">>, b, pk.o)
                  \cup When(Has(2) /\ d.v[2] \notin {User, Host}, {<<"InvalidCertType", Decimal(d.v[2])>>})
                  \cup When(Has(4), WalkAllWhy(<<"s">>, d.v[4]))
                  \cup When(Has(7), OptWhy(d.v[7])) \cup When(Has(8), OptWhy(d.v[8]))
                  \cup When(Has(10), PubWhy(d.v[10]))
                  \cup When(Has(11), IF ca.ok /\ ~VerifySig(ca.key, d.v[11], tbs, IsFact, HashOf) THEN SigWhy(ca.key, d.v[11]) ELSE {})
CertTextWhy(t, IsFact(_, _, _, _), HashOf(_, _)) ==
  LET w == SplitWs(t) IN
  IF Len(w) < 2 THEN Malformed \cup When(Len(w) = 1 /\ ~KnownKt(w[1]), NoType(Utf8Enc(w[1])))
  ELSE LET d == B64Dec(w[2]) IN
       IF d.ok THEN LabelWhy(w[1], d.b) \cup CertWhy(d.b, IsFact, HashOf)
       ELSE NotB64 \cup When(~KnownKt(w[1]), NoType(Utf8Enc(w[1])))

(* ---- armor ---- *)
ArmorWhy(t, begin, end) ==
  LET ls == Lines(t) IN
  IF ls = <<>> \/ ls[1] # begin \/ ~\E i \in 2..Len(ls) : ls[i] = end THEN Malformed ELSE NotB64

(* ---- detached signatures ---- *)
SigFields == <<"u4", "b", "s", "s", "s", "b">>
SigParseWhy(t) ==
  LET a == Dearmor(t, SigBegin, SigEnd)
      b == a.b
      m == RdRaw(b, 0, 6)
      d == Decode(SigFields, b, 6)
      n == Len(d.v)
  IN IF ~a.ok THEN ArmorWhy(t, SigBegin, SigEnd)
     ELSE IF m.st # "ok" THEN CutShort
     ELSE When(m.v # Magic, Malformed)
          \cup WalkWhy(SigFields, b, 6)
          \cup When(n >= 1 /\ d.v[1] # <<0, 0, 0, 1>>, Unsup)
          \cup When(n >= 2, PubWhy(d.v[2]))
          \cup When(n >= 3 /\ d.v[3] = <<>>, Malformed)
          \cup When(n >= 5 /\ d.v[5] \notin {A(h) : h \in SigHashes}, Unsup)
\* one that can be read but does not verify
SigVerifyWhy(t) ==
  LET x == ParseArmoredSig(t) IN
  IF x.ok THEN SigWhy(x.key, x.sig) ELSE SigParseWhy(t)

(* ---- private keys ---- *)
PrivDataWhy(b, o) ==
  LET t == RdString(b, o)
      k == Kt(t.v)
      d == Decode(PrivSchema(k), b, t.o)
  IN IF t.st # "ok" THEN FieldWhy("s", b, o)
     ELSE IF ~KnownKt(t.v) THEN NoType(t.v)
     ELSE IF k.cert THEN NoType(t.v) \cup Mismatch \cup CutShort \cup NotText \cup CurveWhy(PlainKtOf(k), b, t.o)
     ELSE WalkWhy(PrivSchema(k) \o <<"s">>, b, t.o)
          \cup CurveWhy(k, b, t.o)
          \cup When(k.fam = "rsa" /\ ((Len(d.v) >= 5 /\ Small(d.v[5])) \/ (Len(d.v) >= 6 /\ Small(d.v[6]))), Malformed)
BodyWhy(pub, body) ==
  LET m == Decode(<<"u4", "u4">>, body, 0)
      k == ParsePrivData(body, m.o)
  IN IF m.st # "ok" THEN CutShort
     ELSE When(m.v[1] # m.v[2], Malformed)
          \cup (IF k.ok THEN When(k.key.pub # pub, Malformed) ELSE PrivDataWhy(body, m.o))
ContainerFields == <<"s", "s", "b", "u4", "b", "b">>
PrivWhy(b, pass, Str(_, _, _)) ==
  LET p == RdCstring(b, 0)
      d == Decode(ContainerFields, b, p.o)
      n == Len(d.v)
      c == Container(b)
      plain == c.cipher = A("none") /\ c.kdf = A("none")
      known == c.cipher = A("aes256-ctr") /\ c.kdf = A("bcrypt")
      o == Decode(<<"b", "u4">>, c.opts, 0)
      ks == Str(pass[1], o.v[1], o.v[2])
  IN IF p.st # "ok" THEN CutShort
     ELSE IF ~c.ok THEN When(p.v # A("openssh-key-v1"), Malformed)
                        \cup WalkWhy(ContainerFields, b, p.o)
                        \cup When(n >= 4 /\ d.v[4] # <<0, 0, 0, 1>>, Malformed)
                        \cup When(n >= 5, PubWhy(d.v[5]))
                        \cup When(n >= 6 /\ d.v[6] = <<>>, CutShort)
     ELSE IF plain THEN BodyWhy(c.pub, c.body)
     ELSE IF ~known THEN {Cause("EncryptedPrivateKeyNotSupported")}
     ELSE IF pass = <<>> THEN {Cause("EncryptedPrivateKey")}
     ELSE IF o.st # "ok" THEN CutShort
     ELSE IF ks = <<>> \/ Len(ks[1]) < Len(c.body) THEN Malformed
     ELSE BodyWhy(c.pub, XorSeq(c.body, ks[1]))
PrivTextWhy(t, pass, Str(_, _, _)) ==
  LET a == Dearmor(t, PrivBegin, PrivEnd) IN
  IF a.ok THEN PrivWhy(a.b, pass, Str) ELSE ArmorWhy(t, PrivBegin, PrivEnd)

(* ---- allowed signers ---- *)
SignerWhy(t, zone) ==
  LET tk == Tokens(t)
      toks == tk.v
      n == IF Len(toks) >= 1 THEN CountOpts(toks, 2) ELSE 0
      pr == IF toks = <<>> THEN <<>> ELSE SplitOn(Unquote(toks[1]), Comma)
      Is(name) == {i \in 2..(n+1) : OptKey(toks[i]) = A(name)}
      Vals(name) == {OptVal(toks[i]) : i \in Is(name)}
      key == ParsePubLine(toks[n+2] \o <<Sp>> \o toks[n+3])
      quotes == {Cause("InvalidQuotes")}
  IN When(~tk.ok \/ \E i \in 2..Len(toks) : HasQu(toks[i]) /\ (i > n + 1 \/ toks[i][1] = Qu), quotes)
     \cup When(tk.ok /\ toks = <<>>, {Cause("MissingPrincipals")})
     \cup When(toks # <<>> /\ HasQu(Unquote(toks[1])), quotes)
     \cup When(toks # <<>> /\ \E i \in 1..Len(pr) : pr[i] = <<>>, {Cause("InvalidPrincipals")})
     \cup When(\E i \in 2..(n+1) : HasQu(OptVal(toks[i])), quotes)
     \cup UNION {When(Cardinality(Is(nm)) > 1, {<<"DuplicateOptions", A(nm)>>}) : nm \in {"namespaces", "valid-after", "valid-before"}}
     \cup UNION {When(\E v \in Vals(nm) : MayReject(v, zone), {<<"InvalidOption", A(nm)>>}) : nm \in {"valid-after", "valid-before"}}
     \cup When(\E a \in Vals("valid-after"), b \in Vals("valid-before") :
                 \E x \in Readable(a, zone), y \in Readable(b, zone) : InstLeq(y, x), {Cause("InvalidTimestamps")})
     \cup When(tk.ok /\ Len(toks) \in {n + 1, n + 2}, {Cause(IF Len(toks) = n + 1 THEN "MissingKey" ELSE "InvalidKey")})
     \cup When(tk.ok /\ Len(toks) = n + 2, {Cause("MissingKey")})
     \cup When(Len(toks) >= n + 3 /\ ~key.ok, {Cause("InvalidKey")})
     \cup When(Len(toks) > n + 3 \/ (~tk.ok /\ Len(toks) = n + 3), {Cause("UnexpectedEnd")})
\* lines whose meaning is open are open here too
LineWhyOk(t, zone, c) == ParseSignerLine(t).odd \/ c \in SignerWhy(t, zone)

(* ---- the message shows what is at fault ---- *)
Shows(msg, x) == \E i \in 0..(Len(msg) - Len(x)) : SubSeq(msg, i + 1, i + Len(x)) = x
=============================================================================
