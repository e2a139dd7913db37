------------------------------- MODULE Crypto -------------------------------
(* Signature verification over perfect cryptography.  IsFact(alg, key, msg, *)
(* sig) says that sig is a valid signature of msg under key for that        *)
(* algorithm; HashOf(alg, in) is <<digest>> or <<>> when nobody computed it.*)
EXTENDS Keys

PadTo(v, n) == Zeros(n - Len(v)) \o v

\* What the holder of a security key signs: SHA256(app) flags counter SHA256(msg)
SkMsg(app, flags, ctr, msg, HashOf(_, _)) ==
  LET ha == HashOf("sha256", app)  hm == HashOf("sha256", msg) IN
  IF ha = <<>> \/ hm = <<>> THEN <<>> ELSE <<ha[1] \o flags \o ctr \o hm[1]>>

NoScheme == [alg |-> "", len |-> 0]
\* scheme named by the signature -> algorithm, for a key of the given family
Scheme(fam, name) ==
  CASE fam = "ed" /\ name \in {"ssh-ed25519", "sk-ssh-ed25519@openssh.com"} -> [alg |-> "ed25519", len |-> 0]
    [] fam = "ecdsa" /\ name \in {"ecdsa-sha2-nistp256", "sk-ecdsa-sha2-nistp256@openssh.com"} -> [alg |-> "p256", len |-> 32]
    [] fam = "ecdsa" /\ name = "ecdsa-sha2-nistp384" -> [alg |-> "p384", len |-> 48]
    [] fam = "rsa" /\ name = "ssh-rsa" -> [alg |-> "rsa1", len |-> 0]
    [] fam = "rsa" /\ name = "rsa-sha2-256" -> [alg |-> "rsa256", len |-> 0]
    [] fam = "rsa" /\ name = "rsa-sha2-512" -> [alg |-> "rsa512", len |-> 0]
    [] OTHER -> NoScheme

\* Is sigBlob a valid SSH signature of msg under key?
VerifySig(key, sigBlob, msg, IsFact(_, _, _, _), HashOf(_, _)) ==
  LET k    == KtNamed(key.kt)
      t    == RdString(sigBlob, 0)
      st   == Kt(t.v)
      sch  == Scheme(k.fam, st.name)
      body == RdBytes(sigBlob, t.o)
      rs   == Decode(<<"m", "m">>, body.v, 0)
      rsOk == rs.st = "ok" /\ Len(rs.v[1]) <= sch.len /\ Len(rs.v[2]) <= sch.len
      raw  == IF k.fam = "ecdsa" THEN PadTo(rs.v[1], sch.len) \o PadTo(rs.v[2], sch.len) ELSE body.v
      fc   == Decode(<<"r1", "u4">>, sigBlob, body.o)
      m    == IF ~k.sk THEN <<msg>>
              ELSE SkMsg(key.p[Len(key.p)], fc.v[1], fc.v[2], msg, HashOf)
      kp   == CASE k.fam = "rsa" -> key.p
                [] k.fam = "ecdsa" -> <<key.p[2]>>
                [] OTHER -> <<key.p[1]>>
  IN /\ t.st = "ok" /\ st # NoKt
     /\ st.kind = k.kind
     /\ sch # NoScheme
     /\ body.st = "ok"
     /\ (k.fam = "ecdsa" => rsOk)
     /\ (k.sk => fc.st = "ok")
     /\ m # <<>>
     /\ IsFact(sch.alg, kp, m[1], raw)
=============================================================================
