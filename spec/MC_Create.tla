----------------------------- MODULE MC_Create -----------------------------
(* The holder of a private key file uses it: signs, makes detached          *)
(* signatures, prints and re-imports them and has them verified, in any     *)
(* order.  The secret in the file may be spelled differently, damaged, or   *)
(* that of another key.  Signatures and hashes are perfect and symbolic.    *)
EXTENDS SshSig, Json

CONSTANTS Ops,      \* length of a history
          Makes,    \* of which signatures are made at most
          Msgs, Nss

VARIABLES key,      \* [h, sec]: kind of key and what the file holds as its secret
          log,      \* everything the secret has really signed: [mat, alg, m]
          made,     \* the detached signatures made: [m, ns, ha, text, parsed]
          hist      \* what was done, with the outcome demanded
vars == <<key, log, made, hist>>

Own == 65
Foreign == 66
App == A("ssh:")
PubOfKind(h, n) ==
  CASE h = "rsa"  -> [kt |-> "ssh-rsa", p |-> <<<<3>>, <<n>>>>]
    [] h = "p256" -> [kt |-> "ecdsa-sha2-nistp256", p |-> <<A("nistp256"), <<n>>>>]
    [] h = "p384" -> [kt |-> "ecdsa-sha2-nistp384", p |-> <<A("nistp384"), <<n>>>>]
    [] h = "p521" -> [kt |-> "ecdsa-sha2-nistp521", p |-> <<A("nistp521"), <<n>>>>]
    [] h = "ed"   -> [kt |-> "ssh-ed25519", p |-> <<<<n>>>>]
    [] h = "edsk" -> [kt |-> "sk-ssh-ed25519@openssh.com", p |-> <<<<n>>, App>>]
    [] h = "ecsk" -> [kt |-> "sk-ecdsa-sha2-nistp256@openssh.com", p |-> <<A("nistp256"), <<n>>, App>>]
Secrets(h) ==
  CASE h = "rsa" -> {"own", "d", "pq", "crt", "foreign"}
    [] h \in {"p256", "p384"} -> {"own", "padded", "extra", "zero", "order", "empty", "long", "foreign", "short"}
    [] h = "ed" -> {"own", "seed", "cut", "empty", "foreign", "mixed", "tail", "more"}
    [] OTHER -> {"own"}
\* can the library use that secret for that key at all?  "any": it need not,
\* but if it does, what it makes must be right
Use(k) ==
  CASE k.h \in {"p521", "edsk", "ecsk"} -> "no"
    [] k.sec \in {"own", "padded", "seed"} -> "yes"
    [] k.sec \in {"extra", "tail", "crt", "more"} -> "any"
    [] OTHER -> "no"
Alg(h) == CASE h = "rsa" -> "rsa512" [] h = "p256" -> "p256" [] h = "p384" -> "p384" [] OTHER -> "ed25519"
Mine == PubOfKind(key.h, Own)

(* ---- symbolic cryptography ---- *)
HashOf(a, x) == <<A(a) \o <<0>> \o x>>
N(h) == IF h = "p384" THEN 48 ELSE 32
\* the raw signature of the i-th thing signed
Raw(h, i) == IF h \in {"p256", "p384"} THEN PadTo(<<1, i>>, N(h)) \o PadTo(<<2, i>>, N(h)) ELSE <<7, 7, i>>
KeyParts(k) == CASE KtNamed(k.kt).fam = "rsa" -> k.p [] KtNamed(k.kt).fam = "ecdsa" -> <<k.p[2]>> [] OTHER -> <<k.p[1]>>
IsFact(alg, kp, msg, sig) ==
  \E i \in 1..Len(log) : /\ log[i].alg = alg /\ log[i].m = msg /\ sig = Raw(key.h, i)
                         /\ kp = KeyParts(PubOfKind(key.h, log[i].mat))
SchemeOf(h) == IF h = "rsa" THEN "rsa-sha2-512" ELSE PubOfKind(h, Own).kt
SigOf(h, i) == WrBytes(A(SchemeOf(h)))
               \o WrBytes(IF h \in {"p256", "p384"} THEN WrMpint(<<1, i>>) \o WrMpint(<<2, i>>) ELSE Raw(h, i))

(* ---- transitions ---- *)
Init == /\ key \in UNION {{[h |-> h, sec |-> x] : x \in Secrets(h)} : h \in {"rsa", "p256", "p384", "p521", "ed", "edsk", "ecsk"}}
        /\ log = <<>> /\ made = <<>> /\ hist = <<>>
\* a key that need not work gets shorter histories
Full == IF Use(key) = "yes" THEN Ops ELSE 2
Room == Len(hist) < Full
\* a usable key signs with its own material
Signs == Use(key) # "no"
Making == Cardinality({i \in 1..Len(hist) : hist[i].a \in {"sign", "make"}}) < Makes
Sign == /\ Room /\ Making
        /\ \E m \in Msgs :
             /\ log' = IF Signs THEN Append(log, [mat |-> Own, alg |-> Alg(key.h), m |-> A(m)]) ELSE log
             /\ hist' = Append(hist, [a |-> "sign", m |-> m, st |-> Use(key)])
        /\ UNCHANGED <<key, made>>
Make == /\ Room /\ Making
        /\ \E m \in Msgs, ns \in Nss \cup {""}, ha \in {"none"} \cup SigHashes :
             LET eha == IF ha = "none" THEN "sha512" ELSE ha
                 ok == Signs /\ ns # ""
                 i == Len(log) + 1
                 data == SignedData(A(ns), eha, HashOf(eha, A(m))[1])
             IN /\ hist' = Append(hist, [a |-> "make", m |-> m, ns |-> ns, ha |-> ha, st |-> IF ok THEN Use(key) ELSE "no"])
                /\ IF ok
                   THEN /\ log' = Append(log, [mat |-> Own, alg |-> Alg(key.h), m |-> data])
                        /\ \E t \in {ArmoredSig([key |-> Mine, ns |-> A(ns), ha |-> eha, sig |-> SigOf(key.h, i)])} :
                             \E p \in {ParseArmoredSig(t)} :
                               made' = Append(made, [m |-> m, ns |-> ns, ha |-> eha, text |-> t, parsed |-> p])
                   ELSE UNCHANGED <<log, made>>
        /\ UNCHANGED key
\* the text of an earlier one comes back
Reimport == /\ Room
            /\ \E i \in 1..Len(made) : hist' = Append(hist, [a |-> "parse", of |-> i, st |-> "yes"])
            /\ UNCHANGED <<key, log, made>>
Ask == /\ Room
       /\ \E i \in 1..Len(made), m \in Msgs, ns \in Nss \cup {""}, pk \in {"none", "own", "foreign"} :
            LET p == CASE pk = "none" -> <<>> [] pk = "own" -> <<Mine>> [] OTHER -> <<PubOfKind(key.h, Foreign)>>
                v == SigVerifies(made[i].parsed, A(m), A(ns), p, IsFact, HashOf)
            IN hist' = Append(hist, [a |-> "ask", of |-> i, m |-> m, ns |-> ns, pk |-> pk, st |-> IF v THEN "yes" ELSE "no"])
       /\ UNCHANGED <<key, log, made>>
Next == Sign \/ Make \/ Reimport \/ Ask
Spec == Init /\ [][Next]_vars

(* ---- C06 ---- *)
New == IF hist # <<>> /\ hist[Len(hist)].a = "make" /\ made # <<>> THEN {Len(made)} ELSE {}
RoundTrips == \A i \in New : LET p == made[i].parsed  x == made[i] IN
                /\ p.ok /\ p.key = Mine /\ p.ns = A(x.ns) /\ p.ha = x.ha
                /\ ArmoredSig(p) = x.text
                /\ SigVerifies(p, A(x.m), A(x.ns), <<Mine>>, IsFact, HashOf)
\* ... and for nothing else
Asked == \A i \in 1..Len(hist) : LET e == hist[i] IN
           e.a = "ask" => ((e.st = "yes") = (e.m = made[e.of].m /\ e.ns = made[e.of].ns /\ e.pk # "foreign"))
(* ---- C11 ---- *)
OnlyOwn == \A i \in 1..Len(log) : i = Len(log) => VerifySig(Mine, SigOf(key.h, i), log[i].m, IsFact, HashOf)
Unusable == Use(key) = "no" => log = <<>> /\ made = <<>>
Named == \A i \in 1..Len(log) : RdString(SigOf(key.h, i), 0).v = A(SchemeOf(key.h))
Scenario == Len(hist) = Full => PrintT("SCEN " \o ToJson([h |-> key.h, sec |-> key.sec, ops |-> hist]))
=============================================================================
