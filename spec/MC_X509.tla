----------------------------- MODULE MC_X509 -----------------------------
(* Keys inside certificates, requests and bare key structures: algorithm,   *)
(* curve, point, arrangement and container, with up to Devs things unusual, *)
(* against a table of what must come out.  The objects are real DER.        *)
EXTENDS Der, Json

CONSTANT Devs
VARIABLES pick, res
vars == <<pick, res>>

L(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
D(tag, v) == <<tag>> \o L(Len(v)) \o v

Change == [ alg   |-> {"rsa", "ed25519", "ecdh", "ec longer", "ec shorter", "p256"},
            par   |-> {"none", "null", "nested", "int", "p521", "k256", "p192", "longer", "shorter", "twice"},
            point |-> {"empty", "one", "compressed", "long", "zero"},
            parts |-> {"no bits", "swapped", "octets", "inner swapped", "three", "alg only"},
            as    |-> {"cert", "csr", "der"},          \* which reader gets it
            ext   |-> {"some", "none", "many"},
            names |-> {"empty", "long"},
            cut   |-> {"last", "half", "all", "head"},
            sig   |-> {"short", "long"} ]
Base(k, c) == [kind |-> k, curve |-> c, n |-> 0] @@ [d \in DOMAIN Change |-> "own"]

Own(q) == IF q.curve = "p256" THEN OidP256 ELSE OidP384
\* a point of the right size
Size(q) == IF q.curve = "p256" THEN 64 ELSE 96
Coord(q) == [i \in 1..Size(q) |-> (7 * i) % 256]
Point(q) == CASE q.point = "empty" -> <<>> [] q.point = "one" -> <<4>> [] q.point = "compressed" -> <<2>> \o Take(Coord(q), Size(q) \div 2)
              [] q.point = "long" -> <<4>> \o Coord(q) \o <<1>> [] q.point = "zero" -> <<0>> [] OTHER -> <<4>> \o Coord(q)
AlgOid(q) == CASE q.alg = "rsa" -> <<42, 134, 72, 134, 247, 13, 1, 1, 1>> [] q.alg = "ed25519" -> <<43, 101, 112>> [] q.alg = "ecdh" -> <<43, 129, 4, 1, 12>>
               [] q.alg = "ec longer" -> OidEc \o <<1>> [] q.alg = "ec shorter" -> Take(OidEc, 6) [] q.alg = "p256" -> Own(q) [] OTHER -> OidEc
Par(q) == CASE q.par = "none" -> <<>> [] q.par = "null" -> D(5, <<>>) [] q.par = "nested" -> D(48, D(6, Own(q))) [] q.par = "int" -> D(2, <<1>>)
            [] q.par = "p521" -> D(6, <<43, 129, 4, 0, 35>>) [] q.par = "k256" -> D(6, <<43, 129, 4, 0, 10>>) [] q.par = "p192" -> D(6, <<42, 134, 72, 206, 61, 3, 1, 1>>)
            [] q.par = "longer" -> D(6, Own(q) \o <<1>>) [] q.par = "shorter" -> D(6, Take(Own(q), Len(Own(q)) - 1)) [] q.par = "twice" -> D(6, Own(q)) \o D(6, Own(q))
            [] OTHER -> D(6, Own(q))
BitStr(q) == D(3, <<0>> \o Point(q))
AlgSeq(q) == IF q.parts = "inner swapped" THEN D(48, Par(q) \o D(6, AlgOid(q))) ELSE D(48, D(6, AlgOid(q)) \o Par(q))
SpkiDer(q) == CASE q.parts = "no bits" -> D(48, AlgSeq(q)) [] q.parts = "swapped" -> D(48, BitStr(q) \o AlgSeq(q)) [] q.parts = "octets" -> D(48, AlgSeq(q) \o D(4, Point(q)))
                [] q.parts = "three" -> D(48, AlgSeq(q) \o BitStr(q) \o D(5, <<>>)) [] q.parts = "alg only" -> AlgSeq(q) [] OTHER -> D(48, AlgSeq(q) \o BitStr(q))
Name(q) == CASE q.names = "empty" -> D(48, <<>>) [] q.names = "long" -> D(48, D(49, D(48, D(6, <<85, 4, 3>>) \o D(12, [i \in 1..140 |-> 97])))) [] OTHER -> D(48, D(49, D(48, D(6, <<85, 4, 3>>) \o D(12, A("x")))))
Times0 == D(48, D(23, A("160314000000Z")) \o D(24, A("20520417000000Z")))
SigAlg == D(48, D(6, <<42, 134, 72, 206, 61, 4, 3, 2>>))
Sig(q) == D(3, <<0>> \o (CASE q.sig = "short" -> <<1>> [] q.sig = "long" -> [i \in 1..200 |-> i] [] OTHER -> [i \in 1..70 |-> i]))
OneExt == D(48, D(6, <<85, 29, 19>>) \o D(4, D(48, <<>>)))
TwoExt == OneExt \o D(48, D(6, OidFwPiv) \o D(1, <<255>>) \o D(4, <<5, 4, 3>>))
CertExts(q) == CASE q.ext = "some" -> D(163, D(48, OneExt)) [] q.ext = "many" -> D(163, D(48, TwoExt)) [] OTHER -> <<>>
Attrs(q) == CASE q.ext = "some" -> D(160, D(48, D(6, <<42, 134, 72, 134, 247, 13, 1, 9, 14>>) \o D(49, D(48, OneExt)))) [] OTHER -> D(160, <<>>)
Object(q) ==
  CASE q.kind = "der" -> SpkiDer(q)
    [] q.kind = "csr" -> D(48, D(48, D(2, <<0>>) \o Name(q) \o SpkiDer(q) \o Attrs(q)) \o SigAlg \o Sig(q))
    [] OTHER -> D(48, D(48, D(160, D(2, <<2>>)) \o D(2, <<1, 2>>) \o SigAlg \o Name(q) \o Times0 \o Name(q) \o SpkiDer(q) \o CertExts(q)) \o SigAlg \o Sig(q))
Shown(q) == LET o == Object(q) IN
  CASE q.cut = "last" -> Take(o, Len(o) - 1) [] q.cut = "half" -> Take(o, Len(o) \div 2) [] q.cut = "all" -> <<>> [] q.cut = "head" -> Take(o, 4) [] OTHER -> o
Reader(q) == IF q.as = "own" THEN q.kind ELSE q.as

(* ---- the table ---- *)
Fine(q) == /\ q.alg = "own" /\ q.par = "own" /\ q.parts = "own" /\ q.cut = "own" /\ Reader(q) = q.kind

Init == pick \in {Base(k, c) : k \in {"cert", "csr", "der"}, c \in {"p256", "p384"}} /\ res = <<>>
Applies(d, v) ==
  /\ (d = "as" => v # pick.kind) /\ (pick.kind = "der" => d \notin {"ext", "names", "sig"})
  /\ (d = "ext" => (v = "some" \/ (pick.kind = "cert" /\ v # "none")))
  \* inside certificates and requests only structures that are keys of some kind
  /\ (d = "parts" => pick.kind = "der") /\ (pick.kind # "der" => v # "twice")
Deviate == /\ res = <<>> /\ pick.n < Devs
           /\ \E d \in DOMAIN Change : pick[d] = "own" /\ \E v \in Change[d] : Applies(d, v) /\ pick' = [pick EXCEPT ![d] = v, !.n = @ + 1]
           /\ UNCHANGED res
ReadKey(how, b) == CASE how = "cert" -> LET x == X509(b) IN IF x.ok THEN SpkiKey(x.spki) ELSE [ok |-> FALSE]
                     [] how = "csr" -> LET x == CsrSpki(b) IN IF x.ok THEN SpkiKey(x) ELSE [ok |-> FALSE]
                     [] OTHER -> DerPub(b)
Extract == /\ res = <<>>
           /\ \E b \in {Shown(pick)} : \E k \in {ReadKey(Reader(pick), b)} :
                /\ res' = << k >>
                /\ PrintT("SCEN " \o ToJson([how |-> Reader(pick), b |-> b, key |-> IF k.ok THEN << [kt |-> k.key.kt, p |-> k.key.p] >> ELSE <<>>]))
           /\ UNCHANGED pick
Next == Deviate \/ Extract
Spec == Init /\ [][Next]_vars

(* ---- C21 ---- *)
TableAgrees == res # <<>> => res[1].ok = Fine(pick)
Exact == res # <<>> /\ res[1].ok =>
  res[1].key = [kt |-> IF pick.curve = "p256" THEN "ecdsa-sha2-nistp256" ELSE "ecdsa-sha2-nistp384",
                p |-> << IF pick.curve = "p256" THEN A("nistp256") ELSE A("nistp384"), Point(pick) >>]
=============================================================================
