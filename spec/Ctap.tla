-------------------------------- MODULE Ctap --------------------------------
(* FIDO tokens: what each CTAP2 command makes them do, and what the library *)
(* may have them do to make a key and to sign with one.                     *)
EXTENDS Der

(* ---- a token ----                                                        *)
(* [plugged, v21, pins (takes PINs), pin: <<>> or <<its hash>>, tries,      *)
(*  strikes (wrong in a row since it got power), always (asks for the PIN   *)
(*  every time), notrqd (makes keys without it), touch (is touched when it  *)
(*  asks for it), refusal (what it says when it is not), granted,           *)
(*  creds: sequence of [id, rp]]                                            *)
StInvalidPin == 49
StBlocked    == 50   \* no tries left
StLocked     == 52   \* until it gets power again
StCancelled  == 45
TokWants(t, making) == t.always \/ (making /\ t.pin # <<>> /\ ~t.notrqd)
TokHolds(t, rp, ids) == \E i \in 1..Len(t.creds) : t.creds[i].rp = rp /\ \E j \in 1..Len(ids) : ids[j] = t.creds[i].id
PinSays(t, h) ==
  IF t.pin = <<>> THEN 53
  ELSE IF t.tries = 0 THEN StBlocked
  ELSE IF t.strikes >= 3 THEN StLocked
  ELSE IF t.pin = <<h>> THEN 0
  ELSE IF t.tries = 1 THEN StBlocked ELSE IF t.strikes = 2 THEN StLocked ELSE StInvalidPin
AuthSays(x, wants) == CASE x.auth = "bad" -> 51 [] x.auth = "none" /\ wants -> 54 [] OTHER -> 0
Waits(t) == IF t.touch THEN {0} ELSE {t.refusal, StCancelled}
\* what the token may answer to command x
TokSays(t, x) ==
  CASE x.k \in {"tries", "agree"} -> {0}
    [] x.k = "pin" -> {PinSays(t, x.pinh)}
    [] x.k = "select" -> Waits(t)
    [] x.k = "blink" -> IF t.touch THEN {IF t.pin = <<>> THEN 53 ELSE StInvalidPin} ELSE Waits(t)
    [] x.k = "make" ->
         LET a == AuthSays(x, TokWants(t, TRUE)) IN
         IF a # 0 THEN {a} ELSE IF x.algs = <<>> THEN {38} ELSE IF t.touch THEN {0} ELSE {t.refusal}
    [] x.k \in {"probe", "assert"} ->
         LET a == AuthSays(x, t.always /\ x.k = "assert") IN
         IF a # 0 THEN {a} ELSE IF ~TokHolds(t, x.rp, x.allow) THEN {46}
         ELSE IF x.k = "assert" /\ ~t.touch THEN {t.refusal} ELSE {0}
    [] OTHER -> 1..255
TokAfter(t, x) ==
  IF x.said \/ x.k # "pin" THEN t
  ELSE IF x.st = 0 THEN [t EXCEPT !.tries = 8, !.strikes = 0, !.granted = TRUE]
  ELSE IF t.pin = <<>> \/ t.tries = 0 \/ t.strikes >= 3 THEN t
  ELSE [t EXCEPT !.tries = @ - 1, !.strikes = @ + 1]
RECURSIVE TokWalk(_, _)
\* the tokens after a run of commands; ok: each answered as a token does
\* (said: one that refused for a reason of its own)
TokWalk(toks, q) ==
  IF q = <<>> THEN [ok |-> TRUE, toks |-> toks]
  ELSE LET x == Head(q)  t == toks[x.tok] IN
       IF ~x.said /\ (x.st \notin TokSays(t, x) \/ (x.auth = "good" /\ ~t.granted)) THEN [ok |-> FALSE, toks |-> toks]
       ELSE TokWalk([toks EXCEPT ![x.tok] = TokAfter(t, x)], Tail(q))
\* tokens that have been taken out
TokGone(toks, gone) == [i \in 1..Len(toks) |-> IF \E j \in 1..Len(gone) : gone[j] = i
                                               THEN [toks[i] EXCEPT !.plugged = FALSE, !.granted = FALSE] ELSE toks[i]]

(* ---- calls ---- *)
LiveToks(toks) == {i \in 1..Len(toks) : toks[i].plugged}
\* with several tokens the user touches one (only one: two at the same time
\* are not described)
ChosenToks(toks) == IF Cardinality(LiveToks(toks)) = 1 THEN LiveToks(toks) ELSE {i \in LiveToks(toks) : toks[i].touch}
Doing(q) == SelectSeq(q, LAMBDA x : x.k \notin {"blink", "select"})
Kind(q, k) == SelectSeq(q, LAMBDA x : x.k = k)
Heard(x) == x.st = 0 /\ x.heard /\ ~x.said
OnlyOn(q, i, kinds) == \A j \in 1..Len(q) : q[j].tok = i /\ q[j].k \in kinds
PinHash(pin, HashOf(_, _)) == LET h == HashOf("sha256", pin) IN IF h = <<>> THEN <<>> ELSE <<SubSeq(h[1], 1, 16)>>
\* the PIN is shown once at most, only the one given, to a token that has
\* one, and before anything else
PinShown(e, q, t, HashOf(_, _)) ==
  LET p == Kind(q, "pin") IN
  /\ Len(p) <= 1
  /\ p # <<>> => /\ e.pin # <<>> /\ t.pin # <<>>
                 /\ PinHash(e.pin[1], HashOf) = <<p[1].pinh>>
                 /\ \A j \in 1..Len(q) : q[j].k = "pin" => \A k \in 1..(j - 1) : q[k].k \in {"agree", "tries"}

(* making a key: one credential for that application, of a type the result  *)
(* can hold, bound to a fresh challenge                                     *)
MakeAsked(e, x) ==
  /\ x.rp = e.app /\ x.user = e.app /\ x.uname = e.app /\ x.algs = <<-8>> /\ ~x.rk /\ Len(x.cdh) = 32 /\ x.allow = <<>>
  /\ x.auth # "bad"
\* the key that came out of it
KeyMade(e, x, a, SameKey(_, _), Bytes(_)) ==
  LET o == e.out IN
  /\ o.kt = "sk-ssh-ed25519@openssh.com" /\ SameKey(a.key, o.key)
  /\ o.comment = e.comment /\ o.flags = a.flags /\ o.handle = a.cred /\ o.reserved = <<>> /\ o.pin = e.pin /\ o.path = <<>>
  /\ o.ad = x.ad /\ o.sig = x.sig /\ o.ch = x.cdh /\ o.alg = x.alg /\ Bytes(o.inter) = Bytes(x.x5c[1])
  /\ o.back
\* why there is none
PinWhy(st) == CASE st = StInvalidPin -> "InvalidPin" [] st = StLocked -> "KeyLocked" [] st = StBlocked -> "KeyBlocked"
MakeWhy(e, t, q) ==
  LET p == Kind(q, "pin") IN
  IF p # <<>> /\ p[1].heard /\ p[1].st \in {StInvalidPin, StLocked, StBlocked} THEN {PinWhy(p[1].st)}
  ELSE IF e.pin = <<>> /\ t.pin # <<>> /\ TokWants(t, TRUE) THEN {"PinRequired"} \cup (IF e.hit THEN {"other"} ELSE {})
  ELSE {"other"}
TriesTold(e, q) ==
  LET n == Kind(q, "tries") IN
  e.left = (IF e.ek = "InvalidPin" /\ n # <<>> /\ Heard(n[1]) THEN <<n[1].left>> ELSE <<>>)
MakeGoesOn(e, t, q) ==
  LET p == Kind(q, "pin")  m == Kind(q, "make") IN
  IF ~TokWants(t, TRUE) THEN Len(m) = 1
  ELSE IF t.pin = <<>> THEN TRUE
  ELSE IF e.pin = <<>> THEN p = <<>> /\ m = <<>>
  ELSE Len(p) = 1 /\ (p[1].st = 0 <=> Len(m) = 1)
\* Attested(x, app) -> [ok, key, flags, cred]
MakeOk(e, toks, HashOf(_, _), Attested(_, _), SameKey(_, _), Bytes(_)) ==
  LET q == Doing(e.cmds)  m == Kind(q, "make") IN
  IF ChosenToks(toks) = {} THEN q = <<>> /\ e.st = "err" /\ e.ek = "other"
  ELSE \E i \in ChosenToks(toks) :
       LET t == toks[i] IN
       /\ OnlyOn(q, i, {"agree", "tries", "pin", "make"}) /\ PinShown(e, q, t, HashOf)
       /\ Len(m) <= 1 /\ (m # <<>> => MakeAsked(e, m[1]))
       /\ ~e.hit => MakeGoesOn(e, t, q)
       /\ LET a == IF m # <<>> /\ Heard(m[1]) THEN Attested(m[1], e.app) ELSE [ok |-> FALSE] IN
          IF a.ok THEN e.st = "ok" /\ KeyMade(e, m[1], a, SameKey, Bytes)
          ELSE e.st = "err" /\ e.ek \in MakeWhy(e, t, q) /\ TriesTold(e, q)

(* signing: one assertion for that key over the hash of that data           *)
AppOf(key) == key.p[Len(key.p)]
SignAsked(e, key, x, HashOf(_, _)) ==
  /\ x.rp = AppOf(key) /\ x.allow = <<e.handle>> /\ x.auth # "bad"
  /\ x.k = "assert" => HashOf("sha256", e.msg) = <<x.cdh>>
\* the signature the assertion stands for: <<>> or <<bytes>>
Signed(key, q, Ssh(_, _)) ==
  LET a == Kind(q, "assert") IN
  IF a = <<>> THEN <<>>
  ELSE IF ~Heard(a[1]) THEN <<>>
  ELSE LET f == Ssh(key, a[1].sig) IN
       IF f = <<>> THEN <<>> ELSE <<f[1] \o SubSeq(a[1].ad, 33, 37)>>
\* is there nothing in the way?
MaySignWith(e, key, t, HashOf(_, _)) ==
  /\ t.touch /\ TokHolds(t, AppOf(key), <<e.handle>>)
  /\ t.always => t.pin # <<>> /\ e.pin # <<>> /\ PinSays(t, PinHash(e.pin[1], HashOf)[1]) = 0
\* Fits(sig): may it be given out (certificates: does it verify)
SignOk(e, key, toks, HashOf(_, _), Ssh(_, _), Fits(_)) ==
  LET q == Doing(e.cmds)  r == Signed(key, q, Ssh) IN
  /\ Len(Kind(q, "assert")) <= 1
  /\ \A j \in 1..Len(q) : q[j].k \in {"probe", "assert"} => SignAsked(e, key, q[j], HashOf)
  /\ IF ChosenToks(toks) = {} THEN q = <<>>
     ELSE \E i \in ChosenToks(toks) :
          /\ OnlyOn(q, i, {"agree", "tries", "pin", "probe", "assert"}) /\ PinShown(e, q, toks[i], HashOf)
          /\ ~e.hit => (Kind(q, "assert") # <<>> /\ Kind(q, "assert")[1].st = 0) = MaySignWith(e, key, toks[i], HashOf)
  /\ IF r # <<>> /\ Fits(r) THEN e.st = "ok" /\ e.out = r[1] ELSE e.st = "err"
=============================================================================
