----------------------------- MODULE MC_Priv -----------------------------
(* Private key files: every kind of key, plain and encrypted, with up to    *)
(* Devs things about the file or the passphrase that are not as they should *)
(* be, against a table that says how opening must end.  The bytes are       *)
(* concrete; the cipher is a toy stream that the replay exchanges for the   *)
(* real one.                                                                *)
EXTENDS PrivKey, Json

CONSTANT Devs

VARIABLES pick, res
vars == <<pick, res>>

Kinds == {"ssh-rsa", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "ssh-ed25519",
          "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com"}
Fam(x) == KtNamed(x).fam
Sk(x) == KtNamed(x).sk
Other(x) == CASE Fam(x) = "rsa" -> "ssh-ed25519" [] x = "ecdsa-sha2-nistp256" -> "ecdsa-sha2-nistp384" [] x = "ssh-ed25519" -> "ssh-rsa"
              [] Sk(x) -> "ssh-ed25519" [] OTHER -> "ecdsa-sha2-nistp256"

Change == [ armor  |-> {"no begin", "no end", "lead", "lead space", "w64", "one line", "crlf", "after", "blank", "no nl", "cut", "begin space", "other"},
            pre    |-> {"v2", "no nul", "upper", "none"},
            cipher |-> {"none", "aes256-ctr", "aes256-cbc", "aes128-ctr", "empty", "upper"},
            kdf    |-> {"none", "bcrypt", "pbkdf2", "empty", "upper"},
            opts   |-> {"empty", "extra", "cut", "no rounds", "some"},
            count  |-> {"0", "2", "65537", "huge"},
            outer  |-> {"key", "type", "cut", "extra", "cert", "empty", "app"},
            check  |-> {"first", "last", "swap"},
            inner  |-> {"type", "cert", "unknown", "empty"},
            pub    |-> {"key", "empty", "app"},
            curve  |-> {"other", "upper", "both"},
            num    |-> {"p 0", "p 1", "q 1", "q 0", "d 0", "n 0", "padded p", "negative q"},
            sec    |-> {"empty", "long"},
            cm     |-> {"empty", "long", "latin1", "none", "cut"},
            pad    |-> {"none", "zero", "long", "ff"},
            body   |-> {"empty", "four", "eight", "seven"},
            pass   |-> {"none", "right", "wrong", "empty", "case", "long"},
            damage |-> {"check", "type", "tail", "salt", "rounds", "short"} ]
Base(x, e) == [kt |-> x, enc |-> e, n |-> 0] @@ [y \in DOMAIN Change |-> "own"]

(* ---- the file a choice stands for ---- *)
App(v) == IF v = "app" THEN A("ssh:x") ELSE A("ssh:")
Own(x) == CurveOf(KtNamed(x))
BadCurve(q) == CASE q.curve = "upper" -> <<78>> \o Tail(Own(q.kt)) [] OTHER -> IF Own(q.kt) = A("nistp256") THEN A("nistp384") ELSE A("nistp256")
Point(v) == CASE v = "key" -> <<4, 9, 8>> [] v = "empty" -> <<>> [] OTHER -> <<4, 9, 9>>
N(q) == IF q.num = "n 0" THEN <<>> ELSE <<101, 1>>
OuterParts(q) ==
  LET x == IF q.outer = "type" THEN Other(q.kt) ELSE q.kt IN
  (CASE Fam(x) = "rsa" -> << <<1, 0, 1>>, IF q.outer = "key" THEN <<99, 1>> ELSE N(q) >>
     [] Fam(x) = "ecdsa" -> << IF q.curve = "both" /\ q.outer # "type" THEN BadCurve(q) ELSE Own(x), Point(q.outer) >>
     [] OTHER -> << Point(q.outer) >>)
  \o (IF Sk(x) THEN << App(q.outer) >> ELSE <<>>)
OuterPub(q) ==
  LET x == IF q.outer = "type" THEN Other(q.kt) ELSE q.kt
      p == OuterParts(q)
      b == WrBytes(A(IF q.outer = "cert" THEN CertKtOf(KtNamed(x)).name ELSE x)) \o Flatten([i \in 1..Len(p) |-> WrBytes(p[i])])
  IN CASE q.outer = "cut" -> Take(b, Len(b) - 1) [] q.outer = "extra" -> b \o <<1>> [] q.outer = "empty" -> <<>> [] OTHER -> b
Secret(q) == CASE q.sec = "empty" -> <<>> [] q.sec = "long" -> Zeros(70) [] OTHER -> <<3, 2, 1>>
P(q) == CASE q.num = "p 0" -> <<>> [] q.num = "p 1" -> <<1>> [] q.num = "padded p" -> <<0, 11>> [] OTHER -> <<11>>
Q(q) == CASE q.num = "q 0" -> <<>> [] q.num = "q 1" -> <<1>> [] q.num = "negative q" -> <<140>> [] OTHER -> <<13>>
InnerData(q) ==
  CASE Fam(q.kt) = "rsa" -> WrBytes(N(q)) \o WrBytes(IF q.pub = "key" THEN <<3>> ELSE <<1, 0, 1>>)
                            \o WrBytes(IF q.num = "d 0" THEN <<>> ELSE <<17>>) \o WrBytes(<<5>>) \o WrBytes(P(q)) \o WrBytes(Q(q))
    [] OTHER -> (IF Fam(q.kt) = "ecdsa" THEN WrBytes(IF q.curve = "own" THEN Own(q.kt) ELSE BadCurve(q)) ELSE <<>>)
                \o WrBytes(Point(q.pub))
                \o (IF Sk(q.kt) THEN WrBytes(App(q.pub)) \o <<5>> \o WrBytes(Secret(q)) \o WrBytes(<<6>>) ELSE WrBytes(Secret(q)))
InnerType(q) == CASE q.inner = "type" -> A(Other(q.kt)) [] q.inner = "cert" -> A(CertKtOf(KtNamed(q.kt)).name)
                  [] q.inner = "unknown" -> A("ssh-dss") [] q.inner = "empty" -> <<>> [] OTHER -> A(q.kt)
CmText(q) == CASE q.cm = "empty" -> <<>> [] q.cm = "long" -> Zeros(40) [] OTHER -> <<99, 195, 169>>
CmData(q) == CASE q.cm = "latin1" -> WrBytes(<<99, 233>>) [] q.cm = "none" -> <<>> [] q.cm = "cut" -> <<0, 0, 0, 9, 99>> [] OTHER -> WrBytes(CmText(q))
Check(q) == CASE q.check = "first" -> <<1, 2, 3, 4, 0, 2, 3, 4>> [] q.check = "last" -> <<1, 2, 3, 4, 1, 2, 3, 5>> [] q.check = "swap" -> <<1, 2, 3, 4, 4, 3, 2, 1>>
              [] OTHER -> <<1, 2, 3, 4, 1, 2, 3, 4>>
Block(q) == IF q.enc THEN 16 ELSE 8
Section(q) ==
  LET x == Check(q) \o WrBytes(InnerType(q)) \o InnerData(q) \o CmData(q)
      m == (Block(q) - (Len(x) % Block(q))) % Block(q)
  IN x \o (CASE q.pad = "none" \/ q.cm \in {"none", "cut"} -> <<>> [] q.pad = "zero" -> Zeros(m) [] q.pad = "ff" -> [i \in 1..m |-> 255]
             [] q.pad = "long" -> [i \in 1..(m + Block(q)) |-> i] [] OTHER -> [i \in 1..m |-> i])
BodyPlain(q) == CASE q.body = "empty" -> <<>> [] q.body = "four" -> <<1, 2, 3, 4>> [] q.body = "eight" -> <<1, 2, 3, 4, 1, 2, 3, 4>>
                  [] q.body = "seven" -> <<1, 2, 3, 4, 1, 2, 3>> [] OTHER -> Section(q)

Right == A("pass word")
Wrong(v) == CASE v = "empty" -> <<>> [] v = "case" -> A("Pass word") [] v = "long" -> A("pass word ") [] OTHER -> A("other")
Given(q) == CASE q.pass = "none" -> <<>> [] q.pass = "own" -> IF q.enc THEN << Right >> ELSE <<>> [] q.pass = "right" -> << Right >> [] OTHER -> << Wrong(q.pass) >>
Salt == [i \in 1..16 |-> 3 * i]
\* a toy stream; the real KDF refuses an empty passphrase, an empty salt and no rounds
Stream(p, s, n) ==
  IF p = <<>> \/ s = <<>> \/ n = <<0, 0, 0, 0>> THEN <<>>
  ELSE LET h == FoldLeft(LAMBDA a, x : (a * 31 + x) % 9973, 7, p \o s \o n) IN << [i \in 1..400 |-> ((h + i) * (i + 3) + h) % 256] >>
Opts(q) == LET own == WrBytes(Salt) \o <<0, 0, 0, 1>> IN
  CASE q.opts = "empty" -> <<>> [] q.opts = "extra" -> (IF q.enc THEN own ELSE <<>>) \o <<0>>
    [] q.opts = "cut" -> IF q.enc THEN Take(own, 10) ELSE <<0, 0>> [] q.opts = "no rounds" -> WrBytes(Salt)
    [] q.opts = "some" -> own
    [] OTHER -> IF ~q.enc THEN <<>>
                ELSE CASE q.damage = "salt" -> WrBytes(Tail(Salt) \o <<0>>) \o <<0, 0, 0, 1>>
                       [] q.damage = "rounds" -> WrBytes(Salt) \o <<0, 0, 0, 2>>
                       [] OTHER -> own
\* which octets of the stored body are changed after encryption
Flips(q) == CASE q.damage = "check" -> {3} [] q.damage = "type" -> {13} [] OTHER -> {}
Stored(q, ks) ==
  LET x == BodyPlain(q)
      y == IF ks = <<>> THEN x ELSE XorSeq(x, ks[1])
      z == [i \in 1..Len(y) |-> IF i \in Flips(q) THEN y[i] ^^ 1 ELSE y[i]]
  IN CASE q.damage = "tail" -> z \o <<1>> [] q.damage = "short" -> Take(z, IF Len(z) < 20 THEN Len(z) ELSE 20) [] OTHER -> z
Pre(q) == CASE q.pre = "v2" -> A("openssh-key-v2") \o <<0>> [] q.pre = "no nul" -> A("openssh-key-v1") [] q.pre = "upper" -> A("OPENSSH-KEY-V1") \o <<0>>
            [] q.pre = "none" -> <<>> [] OTHER -> A("openssh-key-v1") \o <<0>>
Cipher(q) == CASE q.cipher = "own" -> IF q.enc THEN A("aes256-ctr") ELSE A("none") [] q.cipher = "empty" -> <<>>
               [] q.cipher = "upper" -> IF q.enc THEN A("AES256-CTR") ELSE A("None") [] OTHER -> A(q.cipher)
Kdf(q) == CASE q.kdf = "own" -> IF q.enc THEN A("bcrypt") ELSE A("none") [] q.kdf = "empty" -> <<>>
            [] q.kdf = "upper" -> IF q.enc THEN A("Bcrypt") ELSE A("None") [] OTHER -> A(q.kdf)
Count(q) == CASE q.count = "0" -> <<0, 0, 0, 0>> [] q.count = "2" -> <<0, 0, 0, 2>> [] q.count = "65537" -> <<0, 1, 0, 1>> [] q.count = "huge" -> <<255, 255, 255, 255>>
              [] OTHER -> <<0, 0, 0, 1>>
Outer0(q) == Pre(q) \o WrBytes(Cipher(q)) \o WrBytes(Kdf(q)) \o WrBytes(Opts(q)) \o Count(q) \o WrBytes(OuterPub(q))
Bytes0(q, ks) == Outer0(q) \o WrBytes(Stored(q, ks))
Nl == <<10>>
Shape(q) == [lead  |-> CASE q.armor = "lead" -> Nl [] q.armor = "lead space" -> <<32>> [] OTHER -> <<>>,
             begin |-> CASE q.armor = "no begin" -> <<>> [] q.armor = "begin space" -> PrivBegin \o <<32>> [] q.armor = "other" -> SigBegin [] OTHER -> PrivBegin,
             width |-> CASE q.armor = "w64" -> 64 [] q.armor = "one line" -> 5000 [] OTHER -> 70,
             eol   |-> CASE q.armor = "crlf" -> <<13, 10>> [] q.armor = "blank" -> <<10, 10>> [] OTHER -> Nl,
             end   |-> CASE q.armor = "no end" -> <<>> [] q.armor = "cut" -> Take(PrivEnd, 30) [] OTHER -> PrivEnd,
             tail  |-> CASE q.armor = "after" -> Nl \o A("junk") \o Nl [] q.armor = "no nl" -> <<>> [] OTHER -> Nl]
Text(s, b) == s.lead \o s.begin \o s.eol \o Join(Chunks(B64(b), s.width), s.eol) \o s.eol \o s.end \o s.tail

(* ---- how opening must end ---- *)
\* the wrapping and the outer structure
ArmorFine(q) == q.armor \in {"own", "w64", "one line", "crlf", "after", "blank", "no nl"}
OuterFine(q) ==
  /\ ArmorFine(q)
  /\ q.pre = "own" /\ q.count = "own"
  /\ q.outer \in {"own", "extra", "key", "type", "app"}
  /\ (q.curve = "both" => q.outer = "type" \/ Fam(q.kt) # "ecdsa")
  /\ q.body # "empty" \/ (q.damage = "tail" /\ q.enc)
\* the names
NamesPlain(q) == CASE q.enc -> q.cipher = "none" /\ q.kdf = "none" [] OTHER -> q.cipher \in {"own", "none"} /\ q.kdf \in {"own", "none"}
NamesEnc(q) == IF q.enc THEN q.cipher \in {"own", "aes256-ctr"} /\ q.kdf \in {"own", "bcrypt"} ELSE q.cipher = "aes256-ctr" /\ q.kdf = "bcrypt"
\* the content, read in clear
ContentFine(q) ==
  /\ q.body = "own" /\ q.check = "own" /\ q.inner = "own" /\ q.outer \in {"own", "extra"} /\ q.pub = "own" /\ q.curve = "own"
  /\ q.num \in {"own", "d 0", "n 0"}
  /\ q.cm \in {"own", "empty", "long"}
  /\ q.damage \in {"own", "tail", "salt", "rounds"}
ContentSame(q) == \* both sides changed alike
  \/ q.outer = "key" /\ q.pub = "key" /\ Fam(q.kt) # "rsa"
  \/ q.outer = "app" /\ q.pub = "app"
RightKey(q) == q.enc /\ q.pass \in {"own", "right"} /\ q.opts \in {"own", "extra", "some"} /\ (q.damage \in {"salt", "rounds"} => q.opts # "own")
Ending(q) ==
  IF ~OuterFine(q) THEN "err"
  ELSE IF NamesPlain(q) THEN IF ~q.enc /\ (ContentFine(q) \/ (ContentFine([q EXCEPT !.outer = "own", !.pub = "own"]) /\ ContentSame(q))) THEN "ok" ELSE "err"
  ELSE IF ~NamesEnc(q) THEN "unsup"
  ELSE IF Given(q) = <<>> THEN "enc"
  ELSE IF RightKey(q) /\ (ContentFine(q) \/ (ContentFine([q EXCEPT !.outer = "own", !.pub = "own"]) /\ ContentSame(q))) THEN "ok" ELSE "err"

Init == pick \in {Base(x, e) : x \in Kinds, e \in BOOLEAN} /\ res = <<>>
Applies(d, v) ==
  /\ (d = "curve" => Fam(pick.kt) = "ecdsa") /\ (d = "num" => Fam(pick.kt) = "rsa") /\ (d = "sec" => Fam(pick.kt) # "rsa")
  /\ (v = "app" => Sk(pick.kt))
  /\ (d = "pub" /\ v = "empty" => Fam(pick.kt) # "rsa")
  /\ (d = "damage" /\ v # "tail" => pick.enc)
Deviate == /\ res = <<>> /\ pick.n < Devs
           /\ \E d \in DOMAIN Change : /\ pick[d] = "own"
                                       /\ \E v \in Change[d] : Applies(d, v) /\ pick' = [pick EXCEPT ![d] = v, !.n = @ + 1]
           /\ UNCHANGED res
KeyJ(o) == IF o.st # "ok" THEN <<>> ELSE << [kt |-> o.key.kt, p |-> o.key.pub.p, sec |-> o.key.sec, magic |-> o.key.magic, cm |-> o.key.cm] >>
\* the encryption uses the right passphrase, Salt and one round
Open == /\ res = <<>>
        /\ \E ks \in {IF pick.enc THEN Stream(Right, Salt, <<0, 0, 0, 1>>) ELSE <<>>} : \E b \in {Bytes0(pick, ks)} : \E t \in {Text(Shape(pick), b)} :
           \E o \in {OpenPrivText(t, Given(pick), Stream)} :
             /\ res' = <<o>>
             /\ PrintT("SCEN " \o ToJson([head |-> Outer0(pick), body |-> Stored(pick, <<>>), plain |-> Len(BodyPlain(pick)), enc |-> pick.enc, right |-> Right, salt |-> Salt,
                                          opts |-> Opts(pick), given |-> Given(pick), shape |-> Shape(pick), st |-> o.st, key |-> KeyJ(o)]))
        /\ UNCHANGED pick
Next == Deviate \/ Open
Spec == Init /\ [][Next]_vars

(* ---- C10 ---- *)
TableAgrees == res # <<>> => res[1].st = Ending(pick)
(* ---- C09: what is read is the key that was written, and writing it again *)
(* ends in a file that reads as the same key, byte for byte the same if     *)
(* nothing unusual was about it                                             *)
Expected(q) ==
  [kt |-> q.kt, cm |-> CmText(q), magic |-> <<1, 2, 3, 4>>,
   sec |-> IF Fam(q.kt) = "rsa" THEN << N(q), <<1, 0, 1>>, IF q.num = "d 0" THEN <<>> ELSE <<17>>, <<5>>, <<11>>, <<13>> >>
           ELSE IF Sk(q.kt) THEN << <<5>>, Secret(q), <<6>> >> ELSE << Secret(q) >>]
Exact == res # <<>> /\ res[1].st = "ok" =>
  LET k == res[1].key IN [kt |-> k.kt, cm |-> k.cm, magic |-> k.magic, sec |-> k.sec] = Expected(pick)
Written == res # <<>> /\ res[1].st = "ok" =>
  LET t == PrivFile(res[1].key)  again == OpenPrivText(t, <<>>, Stream) IN
  /\ again.st = "ok" /\ again.key = res[1].key
  /\ (pick.n = 0 /\ ~pick.enc => t = Text(Shape(pick), Bytes0(pick, <<>>)))
=============================================================================
