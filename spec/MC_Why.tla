------------------------------- MODULE MC_Why -------------------------------
(* Refusals tell why: artifacts of every kind with up to Devs faults.  The  *)
(* table next to each fault says how it is called; the operators of Why     *)
(* find the causes in the bytes.  An artifact without fault is accepted and *)
(* has no cause; with faults it is refused, and every cause found is the    *)
(* name of one of them.  Signatures: a run of sevens stands for the valid   *)
(* signature by the key that is a run of nines; the replay puts real ones.  *)
EXTENDS Why, Json

CONSTANT Devs

VARIABLES art, faults, res
vars == <<art, faults, res>>

Nines == [i \in 1..32 |-> 9]
Sevens == [i \in 1..64 |-> 7]
Good(alg, key, msg, sig) == alg = "ed25519" /\ key = <<Nines>> /\ sig = Sevens
NoHash(a, x) == << <<1>> >>
NoStream(p, s, r) == <<>>
Utc == <<<<0, 0, 0>>>>

Bad == <<255, 254>>                       \* not text
Over(b) == <<0, 0, 255, 0>> \o b          \* a length that leads past the end
Signer == WrBytes(A("ssh-ed25519")) \o WrBytes(Nines)
GoodSig == WrBytes(A("ssh-ed25519")) \o WrBytes(Sevens)

Ty(n) == {<<"UnknownKeyType", n>>}
Kd(s) == {Cause(k) : k \in s}
Fmt == Kd({"InvalidFormat", "ParsingError"})
Eof == Fmt \cup Kd({"UnexpectedEof"})
Utf == Kd({"Utf8Error"})
KtM == Kd({"KeyTypeMismatch"})
Sg == Kd({"InvalidSignature"})
Uns == Kd({"Unsupported"})

\* part of the artifact -> fault -> what stands there, what it is called
Fault(bytes, names) == [b |-> bytes, c |-> names]
KeyParts(k) ==
  CASE k = "ssh-ed25519" -> [d1 |-> WrBytes(Nines)]
    [] k = "ssh-rsa" -> [d1 |-> WrBytes(<<1, 0, 1>>), d2 |-> WrBytes(<<100, 1>>)]
    [] k = "ecdsa-sha2-nistp384" -> [cv |-> WrBytes(A("nistp384")), d1 |-> WrBytes(<<4, 9, 9>>)]
    [] k = "sk-ssh-ed25519@openssh.com" -> [d1 |-> WrBytes(<<5, 5>>), ap |-> WrBytes(A("ssh:"))]
KeyFaults(k) ==
  [ty |-> {Fault(WrBytes(A("ssh-dss")), Ty(A("ssh-dss"))), Fault(WrBytes(<<>>), Ty(<<>>)), Fault(WrBytes(Bad), Utf), Fault(Over(A(k)), Eof),
           Fault(WrBytes(A("ssh-rsa-cert-v01@openssh.com")), KtM)}]
  @@ (CASE k = "ssh-ed25519" -> [d1 |-> {Fault(Over(<<1>>), Eof), Fault(<<>>, Eof)}]
        [] k = "ssh-rsa" -> [d1 |-> {Fault(WrBytes(<<128>>), Fmt), Fault(WrBytes(<<0, 1>>), Fmt)}, d2 |-> {Fault(<<0, 0, 0>>, Eof)}]
        [] k = "ecdsa-sha2-nistp384" -> [cv |-> {Fault(WrBytes(A("nistp192")), {<<"UnknownCurve", A("nistp192")>>}), Fault(WrBytes(A("nistp256")), KtM),
                                                 Fault(WrBytes(Bad), Utf)},
                                         d1 |-> {Fault(<<>>, Eof)}]
        [] k = "sk-ssh-ed25519@openssh.com" -> [ap |-> {Fault(<<>>, Eof), Fault(WrBytes(Bad), Utf)}])
KeyOrder(k) == CASE k = "ssh-rsa" -> <<"ty", "d1", "d2">> [] k = "ecdsa-sha2-nistp384" -> <<"ty", "cv", "d1">>
                 [] k = "sk-ssh-ed25519@openssh.com" -> <<"ty", "d1", "ap">> [] OTHER -> <<"ty", "d1">>
KeyKinds == {"ssh-ed25519", "ssh-rsa", "ecdsa-sha2-nistp384", "sk-ssh-ed25519@openssh.com"}

Zero8 == Zeros(8)
CertOrder == <<"ty", "nonce", "key", "serial", "role", "id", "pr", "va", "vb", "cr", "ex", "rs", "ca", "sig">>
CertParts == [ty |-> WrBytes(A("ssh-ed25519-cert-v01@openssh.com")), nonce |-> WrBytes(<<1, 2>>), key |-> WrBytes(<<3, 3, 3>>), serial |-> Zero8,
              role |-> User, id |-> WrBytes(A("id")), pr |-> WrBytes(WrBytes(A("root"))), va |-> Zero8, vb |-> Zero8,
              cr |-> WrBytes(WrBytes(A("c")) \o WrBytes(WrBytes(A("v")))), ex |-> WrBytes(WrBytes(A("e")) \o WrBytes(<<>>)), rs |-> WrBytes(<<>>),
              ca |-> WrBytes(Signer), sig |-> WrBytes(GoodSig)]
CertFaults ==
  [ty |-> {Fault(WrBytes(A("ssh-ed25519")), Kd({"NotCertificate"})), Fault(WrBytes(A("ssh-x")), Ty(A("ssh-x"))), Fault(WrBytes(Bad), Utf)},
   role |-> {Fault(<<0, 0, 0, 0>>, {<<"InvalidCertType", A("0")>>}), Fault(<<0, 0, 0, 3>>, {<<"InvalidCertType", A("3")>>}),
             Fault(<<128, 0, 0, 1>>, {<<"InvalidCertType", A("2147483649")>>})},
   id |-> {Fault(WrBytes(Bad), Utf)},
   pr |-> {Fault(WrBytes(WrBytes(Bad)), Utf), Fault(WrBytes(<<0, 0, 0, 9, 1>>), Eof), Fault(WrBytes(<<0>>), Eof)},
   cr |-> {Fault(WrBytes(WrBytes(A("c")) \o WrBytes(<<>>) \o WrBytes(A("c")) \o WrBytes(<<>>)), Fmt), Fault(WrBytes(WrBytes(A("c"))), Eof)},
   ex |-> {Fault(WrBytes(WrBytes(A("e")) \o WrBytes(<<9>>)), Eof), Fault(WrBytes(WrBytes(Bad) \o WrBytes(<<>>)), Utf),
           Fault(WrBytes(WrBytes(A("e")) \o WrBytes(WrBytes(Bad))), Utf)},
   ca |-> {Fault(WrBytes(WrBytes(A("ssh-y")) \o WrBytes(Nines)), Ty(A("ssh-y"))), Fault(WrBytes(WrBytes(A("ssh-ed25519"))), Eof),
           Fault(WrBytes(WrBytes(A("ssh-ed25519-cert-v01@openssh.com")) \o WrBytes(Nines)), KtM), Fault(WrBytes(<<>>), Eof)},
   sig |-> {Fault(WrBytes(WrBytes(A("ssh-ed25519")) \o WrBytes([Sevens EXCEPT ![1] = 8])), Sg),
            Fault(WrBytes(WrBytes(A("ssh-z")) \o WrBytes(Sevens)), Sg \cup Ty(A("ssh-z"))),
            Fault(WrBytes(WrBytes(A("rsa-sha2-256")) \o WrBytes(Sevens)), Sg \cup KtM),
            Fault(WrBytes(WrBytes(A("ssh-ed25519"))), Sg \cup Eof), Fault(Over(GoodSig), Eof), Fault(<<>>, Eof)}]

SigOrder == <<"magic", "version", "key", "ns", "rsv", "hash", "sig">>
SigParts == [magic |-> Magic, version |-> U32(1), key |-> WrBytes(Signer), ns |-> WrBytes(A("file")), rsv |-> WrBytes(<<>>),
             hash |-> WrBytes(A("sha512")), sig |-> WrBytes(GoodSig)]
SigFaults ==
  [magic |-> {Fault(A("SSHSIH"), Fmt)}, version |-> {Fault(U32(0), Uns), Fault(U32(2), Uns)},
   key |-> {Fault(WrBytes(WrBytes(A("ssh-k"))), Ty(A("ssh-k"))), Fault(WrBytes(<<>>), Eof),
            Fault(WrBytes(WrBytes(A("ssh-ed25519-cert-v01@openssh.com")) \o WrBytes(Nines)), KtM)},
   ns |-> {Fault(WrBytes(<<>>), Fmt), Fault(WrBytes(Bad), Utf)}, rsv |-> {Fault(WrBytes(Bad), Utf)},
   hash |-> {Fault(WrBytes(A("sha384")), Uns), Fault(WrBytes(<<>>), Uns), Fault(WrBytes(Bad), Utf)},
   sig |-> {Fault(Over(GoodSig), Eof), Fault(<<>>, Eof)}]
\* parsed alright, but refused by the verification
VerifyFaults ==
  [ns |-> {Fault(WrBytes(A("mail")), Sg)}, hash |-> {Fault(WrBytes(A("sha256")), Sg)},
   sig |-> {Fault(WrBytes(WrBytes(A("ssh-ed25519")) \o WrBytes([Sevens EXCEPT ![64] = 8])), Sg),
            Fault(WrBytes(WrBytes(A("ssh-rsa")) \o WrBytes(Sevens)), Sg \cup KtM), Fault(WrBytes(<<>>), Sg \cup Eof)}]

PrivOrder == <<"pre", "cipher", "kdf", "opts", "n", "pub", "len", "m1", "m2", "ty", "pk", "sk", "cm">>
PrivParts == [pre |-> A("openssh-key-v1") \o <<0>>, cipher |-> WrBytes(A("none")), kdf |-> WrBytes(A("none")), opts |-> WrBytes(<<>>), n |-> U32(1),
              pub |-> WrBytes(Signer), len |-> <<>>, m1 |-> <<1, 2, 3, 4>>, m2 |-> <<1, 2, 3, 4>>, ty |-> WrBytes(A("ssh-ed25519")),
              pk |-> WrBytes(Nines), sk |-> WrBytes(Sevens), cm |-> WrBytes(A("me"))]
PrivFaults ==
  [pre |-> {Fault(A("openssh-key-v2") \o <<0>>, Fmt)},
   cipher |-> {Fault(WrBytes(A("aes128-ctr")), Kd({"EncryptedPrivateKeyNotSupported"})), Fault(WrBytes(Bad), Utf)},
   kdf |-> {Fault(WrBytes(A("scrypt")), Kd({"EncryptedPrivateKeyNotSupported"}))},
   n |-> {Fault(U32(0), Fmt), Fault(U32(2), Fmt)},
   pub |-> {Fault(WrBytes(WrBytes(A("ssh-q")) \o WrBytes(Nines)), Ty(A("ssh-q"))), Fault(WrBytes(WrBytes(A("ssh-ed25519")) \o WrBytes(<<1>>)), Fmt)},
   len |-> {Fault(<<255, 255, 0, 0>>, Eof)},
   m2 |-> {Fault(<<1, 2, 3, 5>>, Fmt)},
   ty |-> {Fault(WrBytes(A("ssh-i")), Ty(A("ssh-i"))), Fault(WrBytes(Bad), Utf)},
   sk |-> {Fault(Over(<<>>), Eof)},
   cm |-> {Fault(WrBytes(Bad), Utf), Fault(<<>>, Eof)}]

Point == A("YWJj")
KeyWord == B64(WrBytes(A("ssh-ed25519")) \o WrBytes(Nines))
LineOrder == <<"pr", "ns", "va", "vb", "kt", "key", "end">>
LineParts == [pr |-> A("a@b,c"), ns |-> A(" namespaces=\"x\""), va |-> A(" valid-after=20200101Z"), vb |-> A(" valid-before=20300101Z"),
              kt |-> A(" ssh-ed25519"), key |-> <<32>> \o KeyWord, end |-> A(" # note")]
LineFaults ==
  [pr |-> {Fault(A("a,,b"), Kd({"InvalidPrincipals"})), Fault(A("\"a"), Kd({"InvalidQuotes"})), Fault(A("\"\""), Kd({"InvalidPrincipals"}))},
   ns |-> {Fault(A(" namespaces=x namespaces=y"), {<<"DuplicateOptions", A("namespaces")>>}), Fault(A(" namespaces=x\"y"), Kd({"InvalidQuotes"}))},
   va |-> {Fault(A(" valid-after=2020"), {<<"InvalidOption", A("valid-after")>>}), Fault(A(" valid-after=20200230Z"), {<<"InvalidOption", A("valid-after")>>}),
           Fault(A(" valid-after=20310101Z"), Kd({"InvalidTimestamps"})),
           Fault(A(" valid-after=20200101Z valid-after=20200102Z"), {<<"DuplicateOptions", A("valid-after")>>})},
   vb |-> {Fault(A(" valid-before=never"), {<<"InvalidOption", A("valid-before")>>}),
           Fault(A(" valid-before=20400101Z valid-before=20400102Z"), {<<"DuplicateOptions", A("valid-before")>>}),
           Fault(A(" valid-before=20200101Z"), Kd({"InvalidTimestamps"}))},
   kt |-> {Fault(A(" ssh-dss"), Kd({"InvalidKey"})), Fault(<<>>, Kd({"InvalidKey", "MissingKey"}))},
   key |-> {Fault(A(" !!!!"), Kd({"InvalidKey"})), Fault(<<>>, Kd({"InvalidKey", "MissingKey"})), Fault(<<32>> \o Point, Kd({"InvalidKey"}))},
   end |-> {Fault(A(" more"), Kd({"UnexpectedEnd"})), Fault(A(" \"more"), Kd({"UnexpectedEnd", "InvalidQuotes"}))}]

\* textual faults of a line of type, body, comment
WordFaults == {"none", "label unknown", "label other", "b64", "one word", "nothing"}
WordCauses(w) == CASE w = "label unknown" -> Ty(A("ssh-dsa")) \cup KtM [] w = "label other" -> KtM [] w = "b64" -> Kd({"Decode"})
                   [] w \in {"one word", "nothing"} -> Fmt [] OTHER -> {}
Words(w, kt, b) == CASE w = "none" -> A(kt) \o <<32>> \o B64(b)
                     [] w = "label unknown" -> A("ssh-dsa ") \o B64(b)
                     [] w = "label other" -> (IF kt = "ssh-rsa" THEN A("ssh-ed25519 ") ELSE A("ssh-rsa ")) \o B64(b)
                     [] w = "b64" -> A(kt) \o A(" ?") \o B64(b)
                     [] w = "one word" -> A(kt) [] OTHER -> <<>>
ArmorFaults == {"none", "begin", "end", "b64"}
ArmorCauses(w) == CASE w \in {"begin", "end"} -> Fmt [] w = "b64" -> Kd({"Decode"}) [] OTHER -> {}
Armored(w, b, begin, end) ==
  LET ok == Armor(b, begin, end, 70) IN
  CASE w = "begin" -> <<45>> \o ok [] w = "end" -> Take(ok, Len(ok) - 1)
    [] w = "b64" -> begin \o <<10, 63, 10>> \o end [] OTHER -> ok

Arts == {[op |-> "pub_blob", k |-> k, w |-> "none"] : k \in KeyKinds}
        \cup {[op |-> "pub_line", k |-> k, w |-> w] : k \in KeyKinds, w \in WordFaults}
        \cup {[op |-> "cert_bytes", k |-> "", w |-> "none"]} \cup {[op |-> "cert_text", k |-> "", w |-> w] : w \in WordFaults}
        \cup {[op |-> o, k |-> "", w |-> w] : o \in {"sig_parse", "priv_parse"}, w \in ArmorFaults}
        \cup {[op |-> "sig_verify", k |-> "", w |-> "none"], [op |-> "priv_bytes", k |-> "", w |-> "none"], [op |-> "as_line", k |-> "", w |-> "none"]}
OrderOf(a) ==
  CASE a.op \in {"pub_blob", "pub_line"} -> KeyOrder(a.k) [] a.op \in {"cert_bytes", "cert_text"} -> CertOrder
    [] a.op \in {"sig_parse", "sig_verify"} -> SigOrder [] a.op = "priv_parse" -> PrivOrder
    [] a.op = "priv_bytes" -> <<"ty", "pk", "sk", "cm">> [] OTHER -> LineOrder
PartsOf(a) ==
  CASE a.op \in {"pub_blob", "pub_line"} -> [ty |-> WrBytes(A(a.k))] @@ KeyParts(a.k) [] a.op \in {"cert_bytes", "cert_text"} -> CertParts
    [] a.op \in {"sig_parse", "sig_verify"} -> SigParts [] a.op \in {"priv_parse", "priv_bytes"} -> PrivParts [] OTHER -> LineParts
FaultsOf(a) ==
  CASE a.op \in {"pub_blob", "pub_line"} -> KeyFaults(a.k) [] a.op \in {"cert_bytes", "cert_text"} -> CertFaults
    [] a.op = "sig_parse" -> SigFaults [] a.op = "sig_verify" -> VerifyFaults
    [] a.op = "priv_parse" -> PrivFaults
    [] a.op = "priv_bytes" -> [p \in {"ty", "sk", "cm"} |-> PrivFaults[p]] [] OTHER -> LineFaults

Chosen(p) == IF p \in DOMAIN faults THEN faults[p].b ELSE PartsOf(art)[p]
PrivBody == Flatten([i \in 1..6 |-> Chosen(PrivOrder[i + 7])])
Bytes0 ==
  IF art.op = "priv_parse"
  THEN Flatten([i \in 1..6 |-> Chosen(PrivOrder[i])]) \o (IF "len" \in DOMAIN faults THEN faults["len"].b ELSE U32(Len(PrivBody))) \o PrivBody
  ELSE LET o == OrderOf(art) IN Flatten([i \in 1..Len(o) |-> Chosen(o[i])])
Input ==
  CASE art.op = "pub_line" -> Words(art.w, art.k, Bytes0)
    [] art.op = "cert_text" -> Words(art.w, "ssh-ed25519-cert-v01@openssh.com", Bytes0)
    [] art.op \in {"sig_parse", "sig_verify"} -> Armored(art.w, Bytes0, SigBegin, SigEnd)
    [] art.op = "priv_parse" -> Armored(art.w, Bytes0, PrivBegin, PrivEnd)
    [] OTHER -> Bytes0
Accepted(x) ==
  CASE art.op = "pub_blob" -> ParsePub(x).ok [] art.op = "pub_line" -> ParsePubLine(x).ok
    [] art.op = "cert_bytes" -> ImportCert(x, Good, NoHash).ok [] art.op = "cert_text" -> ImportCertText(x, Good, NoHash).ok
    [] art.op = "sig_parse" -> ParseArmoredSig(x).ok
    [] art.op = "sig_verify" -> SigVerifies(ParseArmoredSig(x), <<>>, A("file"), <<>>, Good, NoHash) /\ ParseArmoredSig(x).ha = "sha512"
    [] art.op = "priv_parse" -> OpenPrivText(x, <<>>, NoStream).st = "ok"
    [] art.op = "priv_bytes" -> ParsePrivData(x, 0).ok
    [] OTHER -> ~SignerMayFail(ParseSignerLine(x), Utc)
Found(x) ==
  CASE art.op = "pub_blob" -> PubWhy(x) [] art.op = "pub_line" -> PubLineWhy(x)
    [] art.op = "cert_bytes" -> CertWhy(x, Good, NoHash) [] art.op = "cert_text" -> CertTextWhy(x, Good, NoHash)
    [] art.op = "sig_parse" -> SigParseWhy(x) [] art.op = "sig_verify" -> IF Accepted(x) THEN {} ELSE SigVerifyWhy(x)
    [] art.op = "priv_parse" -> PrivTextWhy(x, <<>>, NoStream) [] art.op = "priv_bytes" -> PrivDataWhy(x, 0)
    [] OTHER -> SignerWhy(x, Utc)

Init == art \in Arts /\ faults = <<>> /\ res = <<>>
Spoil == /\ res = <<>> /\ Cardinality(DOMAIN faults) < Devs
         /\ \E p \in DOMAIN FaultsOf(art) : /\ p \notin DOMAIN faults
                                            /\ \E f \in FaultsOf(art)[p] : faults' = [q \in {p} |-> f] @@ faults
         /\ UNCHANGED <<art, res>>
Try == /\ res = <<>>
       /\ \E x \in {Input} :
            /\ res' = <<Accepted(x), Found(x)>>
            /\ PrintT("SCEN " \o ToJson([op |-> art.op, x |-> x, w |-> art.w, parts |-> [i \in 1..Len(OrderOf(art)) |-> Chosen(OrderOf(art)[i])],
                                         why |-> SetToSeq(Found(x))]))
       /\ UNCHANGED <<art, faults>>
Next == Spoil \/ Try
Spec == Init /\ [][Next]_vars

(* ---- C30 ---- *)
Done == res # <<>>
\* a type that is another known one makes other data of the same bytes
Retyped == "ty" \in DOMAIN faults
Names_ == UNION {faults[p].c : p \in DOMAIN faults}
          \cup (IF art.op \in {"pub_line", "cert_text"} THEN WordCauses(art.w) ELSE ArmorCauses(art.w))
\* refused exactly when there is a cause
Reasoned == Done => (res[1] <=> res[2] = {})
Clean == Done /\ DOMAIN faults = {} /\ art.w = "none" => res[1]
Spoiled == Done /\ (DOMAIN faults # {} \/ art.w # "none") => ~res[1]
\* every cause found is a fault that is there
Truthful == Done => res[2] \subseteq (Names_ \cup (IF art.op \in {"pub_line", "cert_text"} /\ Retyped THEN KtM ELSE {})
                                             \cup (IF art.op \in {"cert_bytes", "cert_text"} /\ DOMAIN faults # {} THEN Sg ELSE {}))
=============================================================================
