------------------------------ MODULE MC_Sig ------------------------------
(* A holder signs, an adversary (or a clumsy peer) changes up to Devs things *)
(* on the way, a verifier is asked.  Signatures and hashes are perfect and  *)
(* symbolic.  Every question asked in the model is printed as a scenario    *)
(* with the verdict the specification demands.                              *)
EXTENDS SshSig, Json

CONSTANT Devs

VARIABLES run,      \* what was signed, what was sent, what is asked
          asked   \* the verdict: <<>> or <<BOOLEAN>>
vars == <<run, asked>>

Mat == 65   \* key material of the holder
App == A("ssh:")
KeyOf(h, n, app) ==
  CASE h = "rsa"  -> [kt |-> "ssh-rsa", p |-> <<<<3>>, <<n>>>>]
    [] h = "p256" -> [kt |-> "ecdsa-sha2-nistp256", p |-> <<A("nistp256"), <<n>>>>]
    [] h = "p384" -> [kt |-> "ecdsa-sha2-nistp384", p |-> <<A("nistp384"), <<n>>>>]
    [] h = "ed"   -> [kt |-> "ssh-ed25519", p |-> <<<<n>>>>]
    [] h = "edsk" -> [kt |-> "sk-ssh-ed25519@openssh.com", p |-> <<<<n>>, app>>]
    [] h = "ecsk" -> [kt |-> "sk-ecdsa-sha2-nistp256@openssh.com", p |-> <<A("nistp256"), <<n>>, app>>]
IsSk(h) == h \in {"edsk", "ecsk"}
IsEc(h) == h \in {"p256", "p384", "ecsk"}
Algs(h) == CASE h = "rsa" -> {"rsa1", "rsa256", "rsa512"}
             [] h \in {"p256", "ecsk"} -> {"p256"}
             [] h = "p384" -> {"p384"}
             [] OTHER -> {"ed25519"}
OwnName(h, alg) == CASE alg = "rsa1" -> "ssh-rsa" [] alg = "rsa256" -> "rsa-sha2-256" [] alg = "rsa512" -> "rsa-sha2-512"
                     [] OTHER -> KeyOf(h, 0, App).kt
\* the same key material in the other form
Other(h) == CASE h = "p256" -> "ecsk" [] h = "ecsk" -> "p256" [] h = "ed" -> "edsk" [] h = "edsk" -> "ed" [] OTHER -> h

Names == {"ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521",
          "ssh-ed25519", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "ssh-ed25519-cert-v01@openssh.com",
          "ssh-rsa-cert-v01@openssh.com", "ecdsa-sha2-nistp256-cert-v01@openssh.com", "sk-ssh-ed25519-cert-v01@openssh.com",
          "ssh-dss", "SSH-RSA", "rsa-sha2-384", ""}

\* what may be changed, and how
Change == [ signed |-> {"unwrapped", "other app", "other flags", "other ctr", "unhashed"},
            name   |-> Names,
            body   |-> {"cut", "more", "padded", "raw", "swapped", "empty", "other"},
            tail   |-> {"flags", "ctr", "none", "short", "long"},
            key    |-> {"other", "other app", "other form"},
            bns    |-> {"git", ""},
            bha    |-> {"flip", "sha1", "SHA256", ""},
            ver    |-> {0, 2},
            magic  |-> {"SSHSIH", "sshsig"},
            rsv    |-> {"x"},
            armor  |-> {"w64", "noend", "nobegin", "lead", "after", "text"},
            msg    |-> {"n", "", "mm"},
            ns     |-> {"git", "", "fil"},
            pk     |-> {"own", "other", "other app", "other form"} ]
Honest(h, alg, ha) ==
  [h |-> h, alg |-> alg, ha |-> ha, n |-> 0,
   signed |-> "own", name |-> OwnName(h, alg), body |-> "own", tail |-> "own", key |-> "own", bns |-> "file", bha |-> "own",
   ver |-> 1, magic |-> "SSHSIG", rsv |-> "", armor |-> "ok", msg |-> "m", ns |-> "file", pk |-> "none"]

(* ---- symbolic cryptography ---- *)
HashOf(a, x) == <<A(a) \o <<0>> \o x>>
Digest(a, x) == HashOf(a, x)[1]
Flags == <<1>>
Ctr == <<0, 0, 0, 9>>
Data == SignedData(A("file"), run.ha, Digest(run.ha, A("m")))
Wrapped(app, fl, ct, d) == Digest("sha256", app) \o fl \o ct \o Digest("sha256", d)
\* the bytes the holder's device was made to sign
Really == CASE run.signed = "unwrapped" -> IF IsSk(run.h) THEN Data ELSE Wrapped(App, Flags, Ctr, Data)
            [] run.signed = "other app" -> Wrapped(A("ssh:x"), Flags, Ctr, Data)
            [] run.signed = "other flags" -> Wrapped(App, <<5>>, Ctr, Data)
            [] run.signed = "other ctr" -> Wrapped(App, Flags, <<0, 0, 0, 8>>, Data)
            [] run.signed = "unhashed" -> Digest("sha256", App) \o Flags \o Ctr \o Data
            [] OTHER -> IF IsSk(run.h) THEN Wrapped(App, Flags, Ctr, Data) ELSE Data
Half(x, n) == [i \in 1..n |-> x]
N(alg) == IF alg = "p384" THEN 48 ELSE 32
RawR == Half(200, N(run.alg))
RawS == Half(100, N(run.alg))
Raw == IF IsEc(run.h) THEN RawR \o RawS ELSE Half(77, 40)
KeyParts(k) == CASE KtNamed(k.kt).fam = "rsa" -> k.p [] KtNamed(k.kt).fam = "ecdsa" -> <<k.p[2]>> [] OTHER -> <<k.p[1]>>
IsFact(alg, key, msg, sig) == alg = run.alg /\ key = KeyParts(KeyOf(run.h, Mat, App)) /\ msg = Really /\ sig = Raw

(* ---- what is sent and asked ---- *)
Which(w) == CASE w = "other" -> KeyOf(run.h, Mat + 1, App) [] w = "other app" -> KeyOf(run.h, Mat, A("ssh:x"))
              [] w = "other form" -> KeyOf(Other(run.h), Mat, App) [] OTHER -> KeyOf(run.h, Mat, App)
Body == IF IsEc(run.h)
        THEN CASE run.body = "cut" -> WrMpint(RawR)
               [] run.body = "more" -> WrMpint(RawR) \o WrMpint(RawS) \o <<1>>
               [] run.body = "padded" -> WrBytes(<<0, 0>> \o RawR) \o WrMpint(RawS)
               [] run.body = "raw" -> WrBytes(RawR) \o WrBytes(RawS)
               [] run.body = "swapped" -> WrMpint(RawS) \o WrMpint(RawR)
               [] run.body = "empty" -> <<>>
               [] run.body = "other" -> WrMpint(Half(199, N(run.alg))) \o WrMpint(RawS)
               [] OTHER -> WrMpint(RawR) \o WrMpint(RawS)
        ELSE CASE run.body = "cut" -> Take(Raw, Len(Raw) - 1)
               [] run.body = "more" -> Raw \o <<0>>
               [] run.body = "padded" -> <<0>> \o Raw
               [] run.body = "raw" -> WrBytes(Raw)
               [] run.body = "swapped" -> <<76>> \o Tail(Raw)
               [] run.body = "empty" -> <<>>
               [] run.body = "other" -> Half(78, Len(Raw))
               [] OTHER -> Raw
OwnTail == IF IsSk(run.h) THEN Flags \o Ctr ELSE <<>>
SigTail == CASE run.tail = "flags" -> <<5>> \o Ctr [] run.tail = "ctr" -> Flags \o <<0, 0, 0, 8>> [] run.tail = "none" -> <<>>
             [] run.tail = "short" -> Flags \o <<0, 0, 0>> [] run.tail = "long" -> OwnTail \o <<7, 7, 7, 7, 7>> [] OTHER -> OwnTail
Sig == WrBytes(A(run.name)) \o WrBytes(Body) \o SigTail
Bha == CASE run.bha = "own" -> run.ha [] run.bha = "flip" -> IF run.ha = "sha256" THEN "sha512" ELSE "sha256" [] OTHER -> run.bha
Blob == A(run.magic) \o U32(run.ver) \o WrBytes(EncodePub(Which(run.key))) \o WrBytes(A(run.bns)) \o WrBytes(A(run.rsv))
        \o WrBytes(A(Bha)) \o WrBytes(Sig)
Nl == <<10>>
TextOf(b) == CASE run.armor = "w64" -> Armor(b, SigBegin, SigEnd, 64)
          [] run.armor = "noend" -> SigBegin \o Nl \o B64(b) \o Nl
          [] run.armor = "nobegin" -> B64(b) \o Nl \o SigEnd
          [] run.armor = "lead" -> Nl \o Armor(b, SigBegin, SigEnd, 76)
          [] run.armor = "after" -> Armor(b, SigBegin, SigEnd, 76) \o Nl \o A("junk") \o Nl \o SigEnd \o Nl
          [] run.armor = "text" -> Armor(b, SigBegin, A("junk!") \o Nl \o SigEnd, 76)
          [] OTHER -> Armor(b, SigBegin, SigEnd, 76)
\* p is what the text parses to, sig the signature blob
Ask(p) == SigVerifies(p, A(run.msg), A(run.ns), IF run.pk = "none" THEN <<>> ELSE <<Which(run.pk)>>, IsFact, HashOf)
\* the same signature, made over and attached to a certificate's bytes
AskCert(sig, data) == VerifySig(Which(run.key), sig, data, IsFact, HashOf)

(* ---- transitions ---- *)
Init == /\ run \in {Honest(h, a, ha) : h \in {"rsa", "p256", "p384", "ed", "edsk", "ecsk"},
                                    a \in {"rsa1", "rsa256", "rsa512", "p256", "p384", "ed25519"}, ha \in SigHashes}
        /\ run.alg \in Algs(run.h)
        /\ asked = <<>>
Applies(d, v) ==
  /\ (d = "signed" /\ v # "unwrapped" => IsSk(run.h))
  /\ (d \in {"key", "pk"} /\ v = "other app" => IsSk(run.h))
  /\ (d \in {"key", "pk"} /\ v = "other form" => Other(run.h) # run.h)
Deviate == /\ run.n < Devs /\ asked = <<>>
           /\ \E d \in DOMAIN Change :
              /\ run[d] = Honest(run.h, run.alg, run.ha)[d]
              /\ \E v \in Change[d] : /\ v # run[d] /\ Applies(d, v)
                                      /\ run' = [run EXCEPT ![d] = v, !.n = @ + 1]
           /\ UNCHANGED asked
Verify == /\ asked = <<>>
          /\ \E b \in {Blob} : \E t \in {TextOf(b)} : \E p \in {ParseArmoredSig(t)} :
               asked' = <<Ask(p), p.ok, AskCert(Sig, Data)>>
          /\ PrintT("SCEN " \o ToJson([c |-> run, sig |-> asked'[1], parse |-> asked'[2], cert |-> asked'[3]]))
          /\ UNCHANGED run
Next == Deviate \/ Verify
Spec == Init /\ [][Next]_vars

(* ---- C05 and C07, stated without the decoder ---- *)
\* schemes that are the same algorithm for a key of that kind
SameAlg(h, name) ==
  CASE h = "rsa" -> {name} = {n \in {"ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"} : OwnName(h, run.alg) = n}
    [] h \in {"p256", "ecsk"} -> name \in {"ecdsa-sha2-nistp256", "sk-ecdsa-sha2-nistp256@openssh.com"}
    [] h = "p384" -> name = "ecdsa-sha2-nistp384"
    [] OTHER -> name \in {"ssh-ed25519", "sk-ssh-ed25519@openssh.com"}
SigSound ==   \* the signature itself fits the key it is presented with
  /\ SameAlg(run.h, run.name)
  /\ \/ run.body = "own"
     \/ IsEc(run.h) /\ run.body = "more"          \* what follows r and s is not looked at
  /\ LET asSk == IF run.key = "other form" THEN ~IsSk(run.h) ELSE IsSk(run.h)
         madeSk == (IsSk(run.h) # (run.signed = "unwrapped"))
         tail == CASE run.tail = "none" -> "none"
                   [] run.tail \in {"own", "long"} -> IF IsSk(run.h) THEN "right" ELSE IF run.tail = "own" THEN "none" ELSE "wrong"
                   [] OTHER -> run.tail
     IN /\ run.key \in {"own", "other form"} \/ (run.key = "other app" /\ run.signed = "other app")
        /\ (run.key = "other form" => run.signed \notin {"other app", "unhashed"})
        /\ asSk = madeSk
        /\ IF ~asSk THEN run.signed \in {"own", "unwrapped"}
           ELSE CASE run.signed = "other flags" -> run.tail = "flags"
                  [] run.signed = "other ctr" -> run.tail = "ctr"
                  [] run.signed = "unhashed" -> FALSE
                  [] run.signed = "other app" -> run.key = "other app" /\ tail = "right"
                  [] OTHER -> tail = "right"
Framed == run.bns # "" /\ run.bha \in {"own", "flip"} /\ run.ver = 1 /\ run.magic = "SSHSIG" /\ run.armor \in {"ok", "w64", "after"}
VerdictIsRight ==
  asked # <<>> =>
    /\ asked[2] = Framed
    /\ asked[3] = SigSound
    /\ asked[1] = (/\ Framed /\ SigSound
                   /\ run.bns = "file" /\ run.bha = "own"          \* the data signed names these
                   /\ run.msg = "m" /\ run.ns = "file"
                   /\ run.pk \in {"none", run.key})
=============================================================================
