------------------------------- MODULE Token -------------------------------
(* PIV tokens (YubiKeys): the tokens, what each command makes them do, and  *)
(* what the library may have them do in each of its calls.                  *)
EXTENDS Der

(* ---- a token ----                                                        *)
(* [serial, pin, tries, mgm, verified, fresh, authed, touch, keep, plugged, *)
(*  gen, keys: slot -> [alg, bits, pinp, touchp, made], certs: slot -> DER] *)
Pad8(p) == p \o [i \in 1..(8 - Len(p)) |-> 255]
\* DES keys carry a parity bit in each byte
Strip(k) == [i \in 1..Len(k) |-> k[i] \div 2]
MgmWeak == {<<1, 1, 1, 1, 1, 1, 1, 1>>, <<254, 254, 254, 254, 254, 254, 254, 254>>,
            <<31, 31, 31, 31, 14, 14, 14, 14>>, <<224, 224, 224, 224, 241, 241, 241, 241>>}
MgmOk(k) == Len(k) = 24 /\ \A i \in {0, 8, 16} : Strip(SubSeq(k, i + 1, i + 8)) \notin {Strip(w) : w \in MgmWeak}
P256 == 17
P384 == 20
Rsa2048 == 7
Slots == {154, 156, 157, 158, 249} \cup (130..149)
\* the PIN policy a slot has when none is asked for: 1 never, 2 once, 3 always
PinPolicyOf(slot, p) == IF p # 0 THEN p ELSE CASE slot = 156 -> 3 [] slot = 158 -> 1 [] OTHER -> 2
Cleared(c) == [c EXCEPT !.verified = FALSE, !.fresh = FALSE, !.authed = FALSE]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* may the key in that slot be used now?
MaySign(c, slot, alg, n) ==
  /\ slot \in DOMAIN c.keys /\ c.keys[slot].alg = alg
  /\ LET p == PinPolicyOf(slot, c.keys[slot].pinp) IN p = 1 \/ (c.verified /\ (p = 2 \/ c.fresh))
  /\ (c.keys[slot].touchp < 2 \/ c.touch)
  /\ CASE alg = P256 -> n <= 32 [] alg = P384 -> n <= 48 [] OTHER -> n = 256
\* does the token carry out command x?  mgm: the management key the caller holds
Says(c, x, mgm) ==
  CASE x.k = "verify" -> IF x.data = <<>> THEN c.verified ELSE c.tries > 0 /\ x.data = Pad8(c.pin)
    [] x.k = "auth"   -> Len(mgm) = 24 /\ Strip(mgm) = Strip(c.mgm)
    [] x.k = "gen"    -> c.authed /\ x.alg \in {P256, P384, Rsa2048} /\ x.slot \in Slots
    [] x.k = "sign"   -> MaySign(c, x.slot, x.alg, Len(x.data))
    [] x.k = "put"    -> c.authed
    [] x.k = "attest" -> x.slot \in DOMAIN c.keys /\ c.keys[x.slot].made
    [] x.k = "get"    -> x.slot \in DOMAIN c.certs
    [] x.k \in {"fault", "other"} -> FALSE
    [] OTHER -> TRUE    \* select, info, reset
CardAfter(c, x) ==
  CASE x.k = "select" -> IF x.slot = 1 \/ c.other \/ ~c.keep THEN [Cleared(c) EXCEPT !.other = (x.slot = 1)] ELSE c
    [] x.k = "reset"  -> [Cleared(c) EXCEPT !.other = FALSE]
    [] x.k = "verify" /\ x.data # <<>> ->
         IF x.ok THEN [c EXCEPT !.verified = TRUE, !.fresh = TRUE, !.tries = 3]
         ELSE IF c.tries = 0 THEN c ELSE [c EXCEPT !.verified = FALSE, !.fresh = FALSE, !.tries = @ - 1]
    [] x.k = "auth"   -> [c EXCEPT !.authed = x.ok]
    [] x.k = "gen" /\ x.ok -> [c EXCEPT !.keys = Set(@, x.slot, [alg |-> x.alg, bits |-> x.out, pinp |-> x.pinp,
                                                               touchp |-> x.touchp, made |-> TRUE])]
    [] x.k = "sign" /\ x.ok -> [c EXCEPT !.fresh = FALSE]
    [] x.k = "put" /\ x.ok -> [c EXCEPT !.certs = Set(@, x.slot, x.data)]
    [] OTHER -> c
RECURSIVE Walk(_, _, _)
\* the tokens after a run of commands; ok: each answered as a token does
Walk(cards, q, mgm) ==
  IF q = <<>> THEN [ok |-> TRUE, cards |-> cards]
  ELSE LET x == Head(q)  c == cards[x.card] IN
       IF x.k # "fault" /\ x.ok # Says(c, x, mgm) THEN [ok |-> FALSE, cards |-> cards]
       ELSE Walk([cards EXCEPT ![x.card] = CardAfter(c, x)], Tail(q), mgm)

(* ---- calls ---- *)
\* commands that use or change what is on a token (reading is free)
EffectKinds == {"verify", "auth", "gen", "sign", "put", "attest", "other"}
Effects(q) == SelectSeq(q, LAMBDA x : x.k \in EffectKinds)
Faulty(q) == \E i \in 1..Len(q) : q[i].k = "fault"
AllDone(q) == \A i \in 1..Len(q) : q[i].ok

KeyAlg(k) == IF k.kt = "ecdsa-sha2-nistp256" THEN P256 ELSE P384
\* key of the certificate in a slot; KeyIn(der) -> [ok, key]
InSlot(c, slot, KeyIn(_)) == IF slot \in DOMAIN c.certs THEN KeyIn(c.certs[slot]) ELSE [ok |-> FALSE]
HashFor(alg) == IF alg = P256 THEN "sha256" ELSE "sha384"

\* The effects of a call in order, as tests on what was seen: step i must
\* satisfy Step(i); they stop at the first refusal.
Follows(eff, n, Step(_)) ==
  /\ Len(eff) <= n
  /\ \A i \in 1..Len(eff) : Step(i)
  /\ \A i \in 1..(Len(eff) - 1) : eff[i].ok
\* with nothing broken all n steps are taken, unless one is refused
Through(e, eff, n) == Faulty(e.cmds) \/ Len(eff) = n \/ (eff # <<>> /\ ~eff[Len(eff)].ok)
Done(eff, n) == Len(eff) = n /\ AllDone(eff)
\* done: the outcome is Right; not done: an error; broken connection: an error,
\* or what is right all the same
Outcome(e, eff, n, Right) ==
  /\ e.st \in {"ok", "err"}
  /\ Through(e, eff, n)
  /\ e.st = "ok" => Done(eff, n) /\ Right
  /\ (e.st = "err" /\ Done(eff, n)) => Faulty(e.cmds)
Refused(e, eff) == e.st = "err" /\ eff = <<>>

UnlockOk(e, i, eff) ==
  LET n == IF MgmOk(e.mgm) THEN 2 ELSE 1
      Step(j) == eff[j].card = i /\ IF j = 1 THEN eff[j].k = "verify" /\ eff[j].data = (IF e.pin = <<>> THEN <<>> ELSE Pad8(e.pin))
                                     ELSE eff[j].k = "auth"
  IN IF Len(e.pin) > 8 THEN Refused(e, eff)
     ELSE IF n = 2 THEN Follows(eff, n, Step) /\ Outcome(e, eff, n, TRUE)
     ELSE /\ Follows(eff, 1, Step) /\ e.st = "err"
          /\ (Done(eff, 1) /\ ~Faulty(e.cmds)) => e.ek = "InvalidManagementKey"

\* a certificate made by provision: of that key, under that name, signed with it
SelfSigned(b, key, cn, sign, CertOfDer(_), HashOf(_, _)) ==
  LET x == CertOfDer(b) IN
  /\ x.ok /\ x.key.ok /\ x.key.key = key /\ x.cn = <<cn>> /\ x.sig = sign.out
  /\ HashOf("sha256", x.tbs) = <<sign.data>>
MadeKey(alg, bits) == IF alg = P256 THEN [kt |-> "ecdsa-sha2-nistp256", p |-> <<A("nistp256"), bits>>]
                      ELSE [kt |-> "ecdsa-sha2-nistp384", p |-> <<A("nistp384"), bits>>]
ProvisionOk(e, i, eff, CertOfDer(_), HashOf(_, _), SameKey(_, _)) ==
  LET ec == e.alg \in {P256, P384}
      Step(j) ==
        /\ eff[j].card = i /\ eff[j].slot = e.slot
        /\ CASE j = 1 -> eff[j].k = "gen" /\ eff[j].alg = e.alg /\ eff[j].pinp = e.pinp /\ eff[j].touchp = e.touchp
             [] j = 2 -> eff[j].k = "sign" /\ eff[j].alg = e.alg
             [] j = 3 -> eff[j].k = "put" /\ (ec => SelfSigned(eff[3].data, MadeKey(e.alg, eff[1].out), e.cn, eff[2], CertOfDer, HashOf))
  IN IF Len(e.cn) > 64 THEN Refused(e, eff)     \* no such common name
     ELSE /\ Follows(eff, 3, Step)
          /\ IF ec THEN Outcome(e, eff, 3, SameKey(MadeKey(e.alg, eff[1].out), e.out))
             ELSE e.st = "err" /\ Through(e, eff, 3)

\* signing what is given with the key in the slot
SignStep(e, i, eff, alg, HashOf(_, _)) ==
  LET Step(j) == eff[j].card = i /\ eff[j].k = "sign" /\ eff[j].slot = e.slot /\ eff[j].alg = alg
                 /\ HashOf(HashFor(alg), e.data) = <<eff[j].data>>
  IN Follows(eff, 1, Step)
SignDataOk(e, c, i, eff, KeyIn(_), HashOf(_, _)) ==
  LET k == InSlot(c, e.slot, KeyIn) IN
  IF ~k.ok THEN Refused(e, eff) /\ ((e.slot \notin DOMAIN c.certs /\ ~Faulty(e.cmds)) => e.ek = "Unprovisioned")
  ELSE IF KeyAlg(k.key) # e.alg THEN Refused(e, eff) /\ (~Faulty(e.cmds) => e.ek = "WrongKeyType")
  ELSE SignStep(e, i, eff, e.alg, HashOf) /\ Outcome(e, eff, 1, e.out = eff[1].out)
SignerOk(e, c, i, eff, KeyIn(_), HashOf(_, _), SshSig(_, _)) ==
  LET k == InSlot(c, e.slot, KeyIn) IN
  IF ~k.ok THEN Refused(e, eff)
  ELSE /\ SignStep(e, i, eff, KeyAlg(k.key), HashOf)
       /\ Outcome(e, eff, 1, SshSig(k.key, eff[1].out) = <<e.out>>)
\* a signing request: for that key and name, signed with it
CsrOk(e, c, i, eff, KeyIn(_), CsrOfDer(_), HashOf(_, _)) ==
  LET k == InSlot(c, e.slot, KeyIn)
      alg == KeyAlg(k.key)
      x == CsrOfDer(e.out)
      Step(j) == eff[j].card = i /\ eff[j].k = "sign" /\ eff[j].slot = e.slot /\ eff[j].alg = alg
  IN IF ~k.ok THEN Refused(e, eff)
     ELSE /\ Follows(eff, 1, Step)
          /\ Outcome(e, eff, 1, /\ x.ok /\ x.key = k /\ x.cn = <<e.cn>> /\ x.sig = eff[1].out
                                /\ HashOf(HashFor(alg), x.tbs) = <<eff[1].data>>)
AttestOk(e, i, eff) ==
  LET Step(j) == eff[j].card = i /\ eff[j].k = "attest" /\ eff[j].slot = e.slot
  IN Follows(eff, 1, Step) /\ Outcome(e, eff, 1, e.out = eff[1].out)
WriteOk(e, i, eff, der, CertOfDer(_)) ==
  LET x == CertOfDer(der)
      Step(j) == eff[j].card = i /\ eff[j].k = "put" /\ eff[j].slot = e.slot /\ eff[j].data = der
  IN IF ~x.ok THEN Refused(e, eff)
     \* other keys a token can hold may be taken or not
     ELSE IF ~x.key.ok /\ eff = <<>> THEN e.st = "err"
     ELSE Follows(eff, 1, Step) /\ Outcome(e, eff, 1, TRUE)
\* reading
ReadOk(e, c, eff, KeyIn(_), SameKey(_, _), Bytes(_)) ==
  LET k == InSlot(c, e.slot, KeyIn)  has == e.slot \in DOMAIN c.certs IN
  /\ eff = <<>>
  /\ CASE e.st = "ok" ->
            /\ has
            /\ (CASE e.call = "fetch_cert" -> Bytes(e.out) = c.certs[e.slot]
                 [] e.call = "fetch_pub" -> k.ok /\ SameKey(k.key, e.out)
                 [] e.call = "key_type" -> k.ok /\ e.out = KeyAlg(k.key)
                 [] e.call = "configured" -> ~k.ok \/ (e.out = KeyAlg(k.key) /\ e.bits = k.key.p[2]))
       [] e.st = "err" -> k.ok => Faulty(e.cmds)
       [] OTHER -> FALSE

\* connecting
WithSerial(w, sn) == {i \in 1..Len(w.cards) : w.cards[i].plugged /\ w.cards[i].serial = sn}
PluggedCards(w) == {i \in 1..Len(w.cards) : w.cards[i].plugged}
OpenOk(e, w, eff) ==
  LET m == IF e.call = "open" THEN WithSerial(w, e.serial) ELSE PluggedCards(w) IN
  /\ eff = <<>>
  /\ IF Cardinality(m) = 1
     THEN \/ e.st = "ok" /\ e.out = w.cards[CHOOSE i \in m : TRUE].serial
          \/ e.st = "err" /\ Faulty(e.cmds)
     ELSE /\ e.st = "err"
          /\ e.call = "open" => e.ek = "NoSuchYubikey"
\* the same token again; a PIN that was right before may be shown again, once
ReconnectOk(e, w, i, pin, eff) ==
  LET Step(j) == eff[j].card = i /\ eff[j].k = "verify" /\ pin # <<>> /\ eff[j].data = Pad8(pin[1])
  IN /\ Follows(eff, 1, Step)
     /\ e.out = w.cards[i].serial
     /\ CASE e.st = "ok" -> w.cards[i].plugged
          [] e.st = "err" -> e.ek = "NoSuchYubikey" /\ (w.cards[i].plugged => Faulty(e.cmds))
          [] OTHER -> FALSE
=============================================================================
