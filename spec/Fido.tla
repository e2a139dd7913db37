-------------------------------- MODULE Fido --------------------------------
(* FIDO authenticator data (WebAuthn section 6.1) with a COSE key, and the  *)
(* SSH key it stands for.                                                   *)
EXTENDS Allowed

\* ---- the CBOR subset ----
CborLen(info) == CASE info = 24 -> 1 [] info = 25 -> 2 [] info = 26 -> 4 [] info = 27 -> 8 [] OTHER -> 0
\* head at offset o: [ok, major, arg (8 bytes, big-endian), o]
CborHead(b, o) ==
  IF o >= Len(b) THEN [ok |-> FALSE]
  ELSE LET mj == b[o+1] \div 32  info == b[o+1] % 32  n == CborLen(info) IN
       IF info >= 28 \/ o + 1 + n > Len(b) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, major |-> mj, o |-> o + 1 + n,
             arg |-> IF n = 0 THEN Zeros(7) \o <<info>> ELSE Zeros(8 - n) \o SubSeq(b, o + 2, o + 1 + n)]
\* an integer as [neg, m]: m or -1-m
CborInt(b, o) ==
  LET h == CborHead(b, o) IN
  IF ~h.ok \/ h.major \notin {0, 1} THEN [ok |-> FALSE]
  ELSE IF h.major = 1 /\ h.arg[1] >= 128 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, neg |-> h.major = 1, m |-> h.arg, o |-> h.o]
SmallArg(a) == IF \A i \in 1..4 : a[i] = 0 /\ a[5] < 128 THEN U32At(a, 4) ELSE Huge
CborBytes(b, o) ==
  LET h == CborHead(b, o) IN
  IF ~h.ok \/ h.major # 2 THEN [ok |-> FALSE]
  ELSE LET n == SmallArg(h.arg) IN
       IF n > Len(b) - h.o THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, v |-> SubSeq(b, h.o + 1, h.o + n), o |-> h.o + n]

IntKey(neg, n) == [neg |-> neg, m |-> Zeros(7) \o <<n>>]
KeyOf(i) == [neg |-> i.neg, m |-> i.m]
KParam == IntKey(TRUE, 0)    \* -1
KX     == IntKey(TRUE, 1)    \* -2
KY     == IntKey(TRUE, 2)    \* -3
KType  == IntKey(FALSE, 1)
KAlg   == IntKey(FALSE, 3)

\* the key map so far; param, x, y are <<>> or <<value>>; zero by default
NoCose == [ty |-> IntKey(FALSE, 0), al |-> IntKey(FALSE, 0), param |-> <<>>, x |-> <<>>, y |-> <<>>]
RECURSIVE CoseFrom(_, _, _, _)
CoseFrom(b, o, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> acc]
  ELSE LET k == CborInt(b, o) IN
       IF ~k.ok THEN [ok |-> FALSE]
       ELSE LET key == KeyOf(k) IN
            IF key \in {KParam, KType, KAlg} THEN
              LET v == CborInt(b, k.o) IN
              IF ~v.ok THEN [ok |-> FALSE]
              ELSE CoseFrom(b, v.o, n - 1,
                     CASE key = KParam -> [acc EXCEPT !.param = <<KeyOf(v)>>]
                       [] key = KType -> [acc EXCEPT !.ty = KeyOf(v)]
                       [] OTHER -> [acc EXCEPT !.al = KeyOf(v)])
            ELSE IF key \in {KX, KY} THEN
              LET v == CborBytes(b, k.o) IN
              IF ~v.ok THEN [ok |-> FALSE]
              ELSE CoseFrom(b, v.o, n - 1, IF key = KX THEN [acc EXCEPT !.x = <<v.v>>] ELSE [acc EXCEPT !.y = <<v.v>>])
            \* any other label may only carry the value "undefined"
            ELSE IF k.o < Len(b) /\ b[k.o + 1] = 247 THEN CoseFrom(b, k.o + 1, n - 1, acc)
            ELSE [ok |-> FALSE]
CoseMap(b, o) ==
  LET h == CborHead(b, o) IN
  IF ~h.ok \/ h.major # 5 THEN [ok |-> FALSE]
  ELSE LET n == SmallArg(h.arg) IN
       IF n > 256 THEN [ok |-> FALSE] ELSE CoseFrom(b, h.o, n, NoCose)
Opt(x) == IF x = <<>> THEN <<>> ELSE x[1]
\* the key material: Ed25519 key or x, or the uncompressed point when y is there
CoseKeyBytes(c) == IF c.y = <<>> THEN Opt(c.x) ELSE <<4>> \o Opt(c.x) \o c.y[1]


NoAuth == [ok |-> FALSE]
ParseAuth(b) ==
  IF Len(b) < 55 THEN NoAuth
  ELSE LET idLen == b[54] * 256 + b[55]
           flags == b[33]
           c == CoseMap(b, 55 + idLen)
       IN IF Len(b) < 55 + idLen \/ ~Bit(flags, 64) THEN NoAuth
          ELSE IF ~c.ok THEN NoAuth
          ELSE [ok |-> TRUE, rp |-> SubSeq(b, 1, 32), flags |-> flags, ctr |-> SubSeq(b, 34, 37),
                aaguid |-> SubSeq(b, 38, 53), cred |-> SubSeq(b, 56, 55 + idLen),
                ty |-> c.v.ty, al |-> c.v.al, key |-> CoseKeyBytes(c.v), param |-> c.v.param]

\* increment of a big-endian number that does not overflow
RECURSIVE Incr(_)
Incr(b) == LET n == Len(b) IN
           IF b[n] < 255 THEN [b EXCEPT ![n] = @ + 1] ELSE Append(Incr(SubSeq(b, 1, n - 1)), 0)
IntText(i) == IF i.neg THEN <<45>> \o Decimal(Incr(i.m)) ELSE Decimal(i.m)

\* the logged integer: [neg, m] with value m or -m
SameInt(i, o) == IF i.neg THEN o.neg /\ o.m = Incr(i.m) ELSE ~o.neg /\ o.m = i.m
AuthMatches(a, o) ==
  /\ a.ok
  /\ o.rp = a.rp /\ o.flags = a.flags /\ o.ctr = a.ctr /\ o.aaguid = a.aaguid /\ o.cred = a.cred
  /\ SameInt(a.ty, o.ty) /\ SameInt(a.al, o.al) /\ o.key = a.key
  /\ o.params = (IF a.param = <<>> THEN <<>> ELSE <<[k |-> [neg |-> TRUE, m |-> Zeros(7) \o <<1>>], v |-> IntText(a.param[1])]>>)
  /\ o.up = Bit(a.flags, 1) /\ o.uv = Bit(a.flags, 4)

\* the SSH key for the credential
AuthKey(a, app) ==
  CASE a.al = IntKey(TRUE, 6) -> [ok |-> TRUE, key |-> [kt |-> "sk-ecdsa-sha2-nistp256@openssh.com", p |-> <<A("nistp256"), a.key, app>>]]
    [] a.al = IntKey(TRUE, 7) -> [ok |-> TRUE, key |-> [kt |-> "sk-ssh-ed25519@openssh.com", p |-> <<a.key, app>>]]
    [] OTHER -> [ok |-> FALSE]
=============================================================================
