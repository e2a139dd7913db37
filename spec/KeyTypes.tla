------------------------------ MODULE KeyTypes ------------------------------
(* The registry of key types and curves.                                    *)
EXTENDS Wire

LOCAL K(name, plain, short, cert, sk, fam, kind) ==
  [name |-> name, plain |-> plain, short |-> short, cert |-> cert, sk |-> sk, fam |-> fam, kind |-> kind]

KeyTypes == {
  K("ssh-rsa", "ssh-rsa", "RSA", FALSE, FALSE, "rsa", "Rsa"),
  K("rsa-sha2-256", "ssh-rsa", "RSA", FALSE, FALSE, "rsa", "Rsa"),
  K("rsa-sha2-512", "ssh-rsa", "RSA", FALSE, FALSE, "rsa", "Rsa"),
  K("ssh-rsa-cert-v01@openssh.com", "ssh-rsa", "RSA-CERT", TRUE, FALSE, "rsa", "RsaCert"),
  K("ecdsa-sha2-nistp256", "ecdsa-sha2-nistp256", "ECDSA", FALSE, FALSE, "ecdsa", "Ecdsa"),
  K("ecdsa-sha2-nistp384", "ecdsa-sha2-nistp384", "ECDSA", FALSE, FALSE, "ecdsa", "Ecdsa"),
  K("ecdsa-sha2-nistp521", "ecdsa-sha2-nistp521", "ECDSA", FALSE, FALSE, "ecdsa", "Ecdsa"),
  K("ecdsa-sha2-nistp256-cert-v01@openssh.com", "ecdsa-sha2-nistp256", "ECDSA-CERT", TRUE, FALSE, "ecdsa", "EcdsaCert"),
  K("ecdsa-sha2-nistp384-cert-v01@openssh.com", "ecdsa-sha2-nistp384", "ECDSA-CERT", TRUE, FALSE, "ecdsa", "EcdsaCert"),
  K("ecdsa-sha2-nistp521-cert-v01@openssh.com", "ecdsa-sha2-nistp521", "ECDSA-CERT", TRUE, FALSE, "ecdsa", "EcdsaCert"),
  K("ssh-ed25519", "ssh-ed25519", "ED25519", FALSE, FALSE, "ed", "Ed25519"),
  K("ssh-ed25519-cert-v01@openssh.com", "ssh-ed25519", "ED25519-CERT", TRUE, FALSE, "ed", "Ed25519Cert"),
  K("sk-ssh-ed25519@openssh.com", "sk-ssh-ed25519@openssh.com", "ED25519-SK", FALSE, TRUE, "ed", "Ed25519"),
  K("sk-ssh-ed25519-cert-v01@openssh.com", "sk-ssh-ed25519@openssh.com", "ED25519-SK-CERT", TRUE, TRUE, "ed", "Ed25519"),
  K("sk-ecdsa-sha2-nistp256@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "ECDSA-SK", FALSE, TRUE, "ecdsa", "Ecdsa"),
  K("sk-ecdsa-sha2-nistp256-cert-v01@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "ECDSA-SK", TRUE, TRUE, "ecdsa", "Ecdsa") }

LOCAL KtByBytes == [n \in {A(k.name) : k \in KeyTypes} |-> CHOOSE k \in KeyTypes : A(k.name) = n]
LOCAL KtByName == [n \in {k.name : k \in KeyTypes} |-> CHOOSE k \in KeyTypes : k.name = n]
NoKt == K("", "", "", FALSE, FALSE, "none", "")
\* look-up by exact name (bytes); unknown names give NoKt
Kt(nameBytes) == IF nameBytes \in DOMAIN KtByBytes THEN KtByBytes[nameBytes] ELSE NoKt
KtNamed(name) == IF name \in DOMAIN KtByName THEN KtByName[name] ELSE NoKt
KnownKt(nameBytes) == nameBytes \in DOMAIN KtByBytes
\* the certificate type of a key type: the one certificate type with its plain name
CertKtOf(k) == CHOOSE c \in KeyTypes : c.cert /\ c.plain = k.plain
PlainKtOf(k) == KtNamed(k.plain)

Curves == {"nistp256", "nistp384", "nistp521"}
CurveBytes == {A(c) : c \in Curves}
\* the curve a key type fixes
CurveOf(k) == CASE k.plain \in {"ecdsa-sha2-nistp256", "sk-ecdsa-sha2-nistp256@openssh.com"} -> A("nistp256")
                [] k.plain = "ecdsa-sha2-nistp384" -> A("nistp384")
                [] k.plain = "ecdsa-sha2-nistp521" -> A("nistp521")
                [] OTHER -> <<>>
CurveBits(c) == CASE c = A("nistp256") -> 256 [] c = A("nistp384") -> 384 [] OTHER -> 521

(* registry sanity, checked by TLC whenever the specification is loaded *)
ASSUME \A k \in KeyTypes : \E p \in KeyTypes : p.name = k.plain /\ ~p.cert /\ p.fam = k.fam /\ p.sk = k.sk
ASSUME \A k \in KeyTypes : Cardinality({c \in KeyTypes : c.cert /\ c.plain = k.plain}) = 1
ASSUME \A k, m \in KeyTypes : k.name = m.name => k = m
=============================================================================
