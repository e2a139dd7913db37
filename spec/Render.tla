------------------------------- MODULE Render -------------------------------
(* Human-readable renderings.                                               *)
EXTENDS Der

RoleText(ct) == IF ct = User THEN A("user certificate") ELSE A("host certificate")
FpText(digest) == B64NoPad(digest)
\* option lines may come in any order
RECURSIVE MatchLines(_, _)
MatchLines(t, lines) ==
  IF lines = {} THEN {t}
  ELSE UNION {IF IsPrefix(l, t) THEN MatchLines(Drop(t, Len(l)), lines \ {l}) ELSE {} : l \in lines}
Tab == <<9>>
Nl == <<10>>
StartsWith(t, p) == IsPrefix(p, t)
\* c: certificate, fk/fc: SHA-256 digests of the encoded subject and CA keys
PrettyHead(c, fk, fc) ==
  A("Type: ") \o A(c.kt) \o <<32>> \o RoleText(c.ct) \o Nl
  \o A("Public Key: ") \o A(KtNamed(c.kt).short) \o A(" SHA256:") \o FpText(fk) \o Nl
  \o A("Signing CA: ") \o A(KtNamed(c.ca.kt).short) \o A(" SHA256:") \o FpText(fc)
  \o A(" (using ") \o A(c.ca.kt) \o A(")") \o Nl
  \o A("Key ID: \"") \o c.id \o A("\"") \o Nl
  \o A("Serial: ") \o Decimal(c.serial) \o Nl
  \o (IF AllZero(c.va) /\ \A i \in 1..8 : c.vb[i] = 255 THEN A("Valid: forever")
      ELSE A("Valid between: ") \o Decimal(c.va) \o A(" and ") \o Decimal(c.vb)) \o Nl
  \o (IF c.pr = <<>> THEN A("Principals: (none)") \o Nl
      ELSE A("Principals") \o Nl \o Flatten([i \in 1..Len(c.pr) |-> Tab \o c.pr[i] \o Nl]))
CritTitle(c) == IF c.cr = {} THEN A("Critical Options: (none)") \o Nl ELSE A("Critical Options:") \o Nl
ExtTitle(c) == IF c.ex = {} THEN A("Extensions: (none)") \o Nl ELSE A("Extensions:") \o Nl
PrettyOk(c, fk, fc, text) ==
  LET h == PrettyHead(c, fk, fc) \o CritTitle(c)
      after == MatchLines(Drop(text, Len(h)), {Tab \o o[1] \o <<32>> \o o[2] \o Nl : o \in c.cr})
  IN /\ StartsWith(text, h)
     /\ \E t \in after :
          /\ StartsWith(t, ExtTitle(c))
          /\ <<>> \in MatchLines(Drop(t, Len(ExtTitle(c))), {Tab \o o[1] \o Nl : o \in c.ex})
CertText(c, ser) == A(c.kt) \o <<32>> \o B64(ser) \o <<32>> \o c.id
=============================================================================
