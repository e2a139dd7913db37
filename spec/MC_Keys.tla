----------------------------- MODULE MC_Keys -----------------------------
(* Public key lines: for every key type, up to Devs unusual things about    *)
(* the label, the type name inside, the components, the base64 and the      *)
(* layout of the line, against a table that says what each means.  The      *)
(* lines are concrete and printed for the library.                          *)
EXTENDS Keys, Json

CONSTANT Devs

VARIABLES pick, res
vars == <<pick, res>>

Plain == {"ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "ssh-ed25519",
          "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com"}
Fam(k) == KtNamed(k).fam
\* another plain type of different family or curve
Other(k) == CASE k = "ssh-ed25519" -> "ssh-rsa" [] k = "ecdsa-sha2-nistp256" -> "ecdsa-sha2-nistp384" [] Fam(k) = "rsa" -> "ssh-ed25519"
              [] KtNamed(k).sk -> "ssh-ed25519" [] OTHER -> "ecdsa-sha2-nistp256"
Change == [ label |-> {"other", "cert", "upper", "space", "cut", "unknown"},
            inner |-> {"other", "cert", "upper", "unknown", "empty", "short"},
            curve |-> {"other", "upper", "none", "unknown"},
            comps |-> {"no last", "empty last", "half last", "extra", "huge", "twice"},
            num   |-> {"padded", "negative", "zero", "zero octet", "big"},
            app   |-> {"empty", "latin1", "utf8"},
            b64   |-> {"no pad", "bits", "url", "space", "cut", "pad", "nl"},
            sep   |-> {"tab", "two", "lead", "after", "none"},
            cm    |-> {"one", "two", "utf8", "hash", "empty"} ]
Base(k) == [kt |-> k, n |-> 0] @@ [x \in DOMAIN Change |-> "own"]

(* ---- the line a choice stands for ---- *)
Curve(q) == LET own == CurveOf(KtNamed(q.kt)) IN
  CASE q.curve = "own" -> own [] q.curve = "other" -> (IF own = A("nistp256") THEN A("nistp384") ELSE A("nistp256"))
    [] q.curve = "upper" -> <<78>> \o Tail(own) [] q.curve = "none" -> <<>> [] OTHER -> A("nistp192")
Modulus(q) == CASE q.num = "padded" -> <<0, 1, 2>> [] q.num = "negative" -> <<200, 1>> [] q.num = "zero" -> <<>> [] q.num = "zero octet" -> <<0>>
            [] q.num = "big" -> <<0, 200, 1>> [] OTHER -> <<100, 1>>
Application(q) == CASE q.app = "empty" -> <<>> [] q.app = "latin1" -> <<115, 233>> [] q.app = "utf8" -> <<115, 195, 169>> [] OTHER -> A("ssh:")
Parts(q) == (CASE Fam(q.kt) = "rsa" -> << <<1, 0, 1>>, Modulus(q) >>
              [] Fam(q.kt) = "ecdsa" -> << Curve(q), <<4, 9, 9>> >>
              [] OTHER -> << <<7, 8, 9>> >>)
            \o (IF KtNamed(q.kt).sk THEN << Application(q) >> ELSE <<>>)
Comps(q) == LET p == Parts(q)  n == Len(p)  all == Flatten([i \in 1..n |-> WrBytes(p[i])]) IN
  CASE q.comps = "no last" -> Take(all, Len(all) - 4 - Len(p[n]))
    [] q.comps = "empty last" -> Take(all, Len(all) - 4 - Len(p[n])) \o <<0, 0, 0, 0>>
    [] q.comps = "half last" -> Take(all, Len(all) - 1)
    [] q.comps = "extra" -> all \o <<0>>
    [] q.comps = "huge" -> Take(all, Len(all) - 4 - Len(p[n])) \o <<255, 255, 255, 255>>
    [] q.comps = "twice" -> all \o all
    [] OTHER -> all
CertOf(k) == CertKtOf(KtNamed(k)).name
Inner(q) == CASE q.inner = "own" -> A(q.kt) [] q.inner = "other" -> A(Other(q.kt)) [] q.inner = "cert" -> A(CertOf(q.kt))
              [] q.inner = "upper" -> <<83>> \o Tail(A(q.kt)) [] q.inner = "unknown" -> A("ssh-dss") [] q.inner = "empty" -> <<>>
              [] OTHER -> Take(A(q.kt), Len(q.kt) - 1)
Blob(q) == WrBytes(Inner(q)) \o Comps(q)
Body(q, b) == LET x == B64(b)  y == B64NoPad(b)  n == Len(y) IN
  CASE q.b64 = "no pad" -> y
    [] q.b64 = "bits" -> IF Len(b) % 3 = 0 THEN <<33>> \o Tail(x) ELSE Take(y, n - 1) \o <<y[n] + 1>> \o Drop(x, n)
    [] q.b64 = "url" -> <<45>> \o Tail(x)
    [] q.b64 = "space" -> Take(x, 8) \o <<32>> \o Drop(x, 8)
    [] q.b64 = "cut" -> Take(y, n - 1 - (IF (n - 1) % 4 = 1 THEN 0 ELSE ((n - 1) % 4) + 3))
    [] q.b64 = "pad" -> x \o <<61>>
    [] q.b64 = "nl" -> Take(x, 12) \o <<10>> \o Drop(x, 12)
    [] OTHER -> x
Label(q) == CASE q.label = "own" -> A(q.kt) [] q.label = "other" -> A(Other(q.kt)) [] q.label = "cert" -> A(CertOf(q.kt))
              [] q.label = "upper" -> <<83>> \o Tail(A(q.kt)) [] q.label = "space" -> <<A(q.kt)[1]>> \o <<32>> \o Tail(A(q.kt))
              [] q.label = "cut" -> Take(A(q.kt), Len(q.kt) - 1) [] OTHER -> A("ssh-dss")
Sep(q) == CASE q.sep = "tab" -> <<9>> [] q.sep = "two" -> <<32, 32>> [] q.sep = "none" -> <<>> [] OTHER -> <<32>>
Comment(q) == CASE q.cm = "one" -> A(" me@host") [] q.cm = "two" -> A(" a b") [] q.cm = "utf8" -> <<32, 233, 128512>>
                [] q.cm = "hash" -> A(" #x") [] q.cm = "empty" -> <<32>> [] OTHER -> <<>>
Line(q, b) == (IF q.sep = "lead" THEN <<32, 9>> ELSE <<>>) \o Label(q) \o Sep(q) \o Body(q, b) \o Comment(q)
              \o (IF q.sep = "after" THEN <<32, 10>> ELSE <<>>)

(* ---- the table ---- *)
BlobFine(q) ==
  /\ q.inner = "own"
  /\ (Fam(q.kt) = "ecdsa" => q.curve = "own")
  /\ \/ q.comps \in {"own", "extra", "twice"}
     \/ q.comps = "empty last"       \* an empty component is a component
  /\ (Fam(q.kt) = "rsa" => \/ q.num \in {"own", "zero", "big"}
                           \/ q.comps = "empty last")
  /\ (KtNamed(q.kt).sk => q.app # "latin1" \/ q.comps = "empty last")
Whole(q) == q.label = "own" /\ q.sep # "none" /\ q.b64 \in {"own", "no pad"}

Init == pick \in {Base(k) : k \in Plain} /\ res = <<>>
Applies(d) == /\ (d = "curve" => Fam(pick.kt) = "ecdsa") /\ (d = "num" => Fam(pick.kt) = "rsa") /\ (d = "app" => KtNamed(pick.kt).sk)
Deviate == /\ res = <<>> /\ pick.n < Devs
           /\ \E d \in DOMAIN Change : /\ pick[d] = "own" /\ Applies(d)
                                       /\ \E v \in Change[d] : pick' = [pick EXCEPT ![d] = v, !.n = @ + 1]
           /\ UNCHANGED res
J(r, cm) == [ok |-> r.ok, kt |-> r.key.kt, p |-> r.key.p, cm |-> cm]
Parse == /\ res = <<>>
         /\ \E b \in {Blob(pick)} : \E t \in {Line(pick, b)} : \E l \in {ParsePubLine(t)} : \E k \in {ParsePub(b)} :
              /\ res' = <<l, k, t, b>>
              /\ PrintT("SCEN " \o ToJson([t |-> t, b |-> b, line |-> J(l, l.cm), blob |-> J(k, <<>>)]))
         /\ UNCHANGED pick
Next == Deviate \/ Parse
Spec == Init /\ [][Next]_vars

(* ---- C08 ---- *)
\* (under another type's name the bytes may make another, proper key; but
\* never one that its label does not announce)
TableAgrees == res # <<>> =>
  IF pick.inner = "other" THEN res[1].ok => pick.label = "other" /\ res[2].ok
  ELSE /\ res[2].ok = BlobFine(pick)
       /\ (Whole(pick) => res[1].ok = BlobFine(pick))
       /\ (~Whole(pick) => ~res[1].ok)
FieldsExact == res # <<>> /\ res[2].ok /\ pick.inner # "other" =>
  LET p == Parts(pick)  n == Len(p) IN
  res[2].key = [kt |-> pick.kt,
                p |-> [i \in 1..n |-> IF i = n /\ pick.comps = "empty last" THEN <<>> ELSE IF Fam(pick.kt) = "rsa" THEN MpintVal(p[i]) ELSE p[i]]]
\* what is printed for an accepted key is accepted again and is the same key,
\* up to the plain name of its type
RoundTrip == res # <<>> /\ res[1].ok =>
  LET again == ParsePubLine(PubLine(res[1].key, <<>>)) IN
  again.ok /\ again.key.p = res[1].key.p /\ again.key.kt = KtNamed(res[1].key.kt).plain
CommentOnly == res # <<>> /\ res[1].ok =>
  res[1].cm = CASE pick.cm = "one" -> <<A("me@host")>> [] pick.cm = "two" -> <<A("a")>> [] pick.cm = "utf8" -> <<Utf8Enc(<<233, 128512>>)>>
                [] pick.cm = "hash" -> <<A("#x")>> [] OTHER -> <<>>
=============================================================================
