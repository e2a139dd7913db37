----------------------------- MODULE MC_Token -----------------------------
(* The library at work on two tokens, command by command.  A call becomes a *)
(* list of commands; the connection may break at any that changes or uses   *)
(* something, before it is carried out or after; tokens are taken away and  *)
(* put back between calls.  Every history of Calls calls is a scenario.     *)
EXTENDS Token, Json

CONSTANTS Calls,     \* how many calls and events
          Breaks,    \* how many broken connections
          Keeps,     \* does selecting the application keep the PIN state?
          Policies,  \* <<PIN policy, touch policy>> to provision with
          Menu       \* which calls

VARIABLES cards,   \* the tokens
          hs,      \* connection i is to token i: [pin, link]
          run,     \* the call being carried out: [e, todo, st, ek, out], or idle
          old,     \* the tokens when it began
          knows,   \* per token: has the right PIN been shown since it last forgot?
          made,    \* keys made so far
          brk,     \* connections broken so far
          hist
vars == <<cards, hs, run, old, knows, made, brk, hist>>

OnePolicy == {<<3, 2>>}
SomePolicies == {<<0, 1>>, <<1, 2>>, <<3, 3>>}
Slot1 == 154
Slot2 == 156
Two == {Slot1, Slot2}
Idle == [e |-> <<>>, todo |-> <<>>, st |-> "", ek |-> "", out |-> <<>>]
Busy == run.e # <<>>

(* ---- abstract certificates, hashes and signatures ---- *)
PinNo(i) == <<i, i, i>>
Der(key, cn) == [ok |-> TRUE, key |-> [ok |-> TRUE, key |-> key], cn |-> <<cn>>, tbs |-> <<key, cn>>, sig |-> <<>>]
CertOfDer(d) == d
KeyInDer(d) == d.key
MHash(a, x) == << <<a, x>> >>
SigOf(bits, d) == <<"sig", bits, d>>
MSsh(key, sig) == << <<key, sig>> >>
Same(a, b) == a = b
Ident(x) == x

Key0(i) == [alg |-> P256, bits |-> <<i>>, pinp |-> 0, touchp |-> 1, made |-> i = 1]
Card0(i, k) == [serial |-> i, pin |-> PinNo(i), tries |-> 3, mgm |-> <<i>>, verified |-> FALSE, fresh |-> FALSE, authed |-> FALSE,
             touch |-> TRUE, keep |-> k, plugged |-> TRUE, other |-> FALSE,
             keys |-> Set(<<>>, Slot1, Key0(i)), certs |-> Set(<<>>, Slot1, Der(MadeKey(P256, <<i>>), "was"))]
\* both tokens have been opened, and perhaps the first unlocked
Init == /\ \E k \in Keeps, u \in BOOLEAN :
             /\ cards = <<[Card0(1, k) EXCEPT !.verified = u, !.fresh = u, !.authed = u], Card0(2, k)>>
             /\ hs = [i \in {1, 2} |-> [pin |-> IF u /\ i = 1 THEN <<PinNo(1)>> ELSE <<>>, link |-> "up"]]
             /\ knows = <<u, FALSE>>
             /\ hist = <<[a |-> "start", keep |-> k, unlocked |-> u]>>
        /\ run = Idle /\ old = cards /\ made = 2 /\ brk = 0

(* ---- what the library does in a call ---- *)
Cmd(i, k) == [card |-> i, k |-> k, ok |-> TRUE, slot |-> 0, alg |-> 0, pinp |-> 0, touchp |-> 0, data |-> <<>>, out |-> <<>>,
              always |-> FALSE]
\* opening token i by its serial: those before it are looked at and let go
Looking(i) == IF i = 1 THEN <<Cmd(1, "select")>>
              ELSE IF cards[1].plugged THEN <<Cmd(1, "select"), Cmd(1, "reset"), Cmd(2, "select")>> ELSE <<Cmd(2, "select")>>
Let(i) == [Cmd(i, "reset") EXCEPT !.always = TRUE]
Get(i, s) == [Cmd(i, "get") EXCEPT !.slot = s]
SignCmd(i, s, alg, d) == [Cmd(i, "sign") EXCEPT !.slot = s, !.alg = alg, !.data = d]
Key(i, s) == InSlot(cards[i], s, KeyInDer)
Todo(e) ==
  LET i == e.k  k == Key(i, e.slot)  link == hs[i].link IN
  IF e.call # "reconnect" /\ link # "up" THEN <<Cmd(i, "fault")>>
  ELSE CASE e.call = "unlock" -> <<[Cmd(i, "verify") EXCEPT !.data = Pad8(e.pin)], Cmd(i, "auth")>>
    [] e.call = "provision" ->
         LET key == MadeKey(e.alg, <<made + 1>>)
             h == MHash("sha256", Der(key, e.cn).tbs)[1]
         IN <<[Cmd(i, "gen") EXCEPT !.slot = e.slot, !.alg = e.alg, !.pinp = e.pinp, !.touchp = e.touchp],
              SignCmd(i, e.slot, e.alg, h),
              [Cmd(i, "put") EXCEPT !.slot = e.slot, !.data = [Der(key, e.cn) EXCEPT !.sig = SigOf(<<made + 1>>, h)]],
              Get(i, e.slot)>>
    [] e.call = "sign_data" -> IF k.ok /\ KeyAlg(k.key) = e.alg
                               THEN <<Get(i, e.slot), SignCmd(i, e.slot, e.alg, MHash(HashFor(e.alg), e.data)[1])>> ELSE <<Get(i, e.slot)>>
    [] e.call = "signer" -> IF k.ok THEN <<Get(i, e.slot), SignCmd(i, e.slot, KeyAlg(k.key), MHash(HashFor(KeyAlg(k.key)), e.data)[1])>>
                            ELSE <<Get(i, e.slot)>>
    [] e.call = "csr" -> IF ~k.ok THEN <<Get(i, e.slot)>>
                         ELSE <<Get(i, e.slot)>> \o Looking(i) \o <<Get(i, e.slot), Let(i)>> \o Looking(i)
                              \o <<Get(i, e.slot), SignCmd(i, e.slot, KeyAlg(k.key), MHash(HashFor(KeyAlg(k.key)), Der(k.key, e.cn).tbs)[1]), Let(i)>>
    [] e.call = "attest" -> <<[Cmd(i, "attest") EXCEPT !.slot = e.slot]>>
    [] e.call = "write" -> <<[Cmd(i, "put") EXCEPT !.slot = e.slot, !.data = e.der]>>
    [] e.call = "fetch_pub" -> <<Get(i, e.slot)>>
    [] e.call = "reconnect" ->
         IF link = "stale" THEN <<Cmd(i, "fault")>> \o (IF cards[i].plugged THEN Looking(i) ELSE <<>>)
         ELSE <<Cmd(i, "reset"), Cmd(i, "select")>> \o (IF hs[i].pin = <<>> THEN <<>> ELSE <<[Cmd(i, "verify") EXCEPT !.data = Pad8(hs[i].pin[1])]>>)
\* what is wrong even though each command is carried out
Wrong(e) == CASE e.call = "sign_data" -> LET k == Key(e.k, e.slot) IN k.ok /\ KeyAlg(k.key) # e.alg
              [] e.call = "reconnect" -> ~cards[e.k].plugged
              [] OTHER -> FALSE

Ask0 == [call |-> "", h |-> 0, k |-> 1, slot |-> Slot1, alg |-> 0, pinp |-> 0, touchp |-> 0, pin |-> <<>>, mgm |-> <<1>>, cn |-> "cn", data |-> "data",
         der |-> <<>>, out |-> <<>>, cmds |-> <<>>, st |-> "", ek |-> ""]
MayAsk ==
  LET Of(c, S) == IF c \in Menu THEN S ELSE {} IN
  Of("unlock", {[Ask0 EXCEPT !.call = "unlock", !.k = i, !.pin = p, !.mgm = <<i>>] : i \in {1, 2}, p \in {PinNo(1), PinNo(2)}})
  \cup Of("provision", {[Ask0 EXCEPT !.call = "provision", !.slot = s, !.alg = a, !.pinp = p[1], !.touchp = p[2]] :
                          s \in Two, a \in {P256, P384}, p \in Policies})
  \cup Of("sign_data", {[Ask0 EXCEPT !.call = "sign_data", !.slot = s, !.alg = a] : s \in Two, a \in {P256, P384}})
  \cup Of("signer", {[Ask0 EXCEPT !.call = "signer", !.k = i, !.slot = s] : i \in {1, 2}, s \in Two})
  \cup Of("csr", {[Ask0 EXCEPT !.call = "csr", !.k = i, !.slot = s] : i \in {1, 2}, s \in Two})
  \cup Of("attest", {[Ask0 EXCEPT !.call = "attest", !.slot = s] : s \in Two})
  \cup Of("write", {[Ask0 EXCEPT !.call = "write", !.slot = s, !.der = Der(MadeKey(P384, <<0>>), "put")] : s \in Two})
  \cup Of("fetch_pub", {[Ask0 EXCEPT !.call = "fetch_pub", !.k = i, !.slot = s] : i \in {1, 2}, s \in Two})
  \cup Of("reconnect", {[Ask0 EXCEPT !.call = "reconnect", !.k = i] : i \in {1, 2}})

Happened == Len(SelectSeq(hist, LAMBDA x : x.a \notin {"lose", "start"}))
Room == Happened < Calls
Begin == /\ ~Busy /\ Room
         /\ \E e \in MayAsk : run' = [e |-> e, todo |-> Todo(e), st |-> "", ek |-> "", out |-> <<>>]
         /\ old' = cards
         /\ UNCHANGED <<cards, hs, knows, made, brk, hist>>

\* what one command does, answered by the token
MgmOf(e) == cards[e.k].mgm
MSays(c, x) == CASE x.k = "auth" -> TRUE [] OTHER -> Says(c, x, <<>>)
Forgets(x) == CASE x.k = "reset" -> TRUE [] x.k = "select" -> ~cards[x.card].keep [] OTHER -> FALSE
Answer(c, x) ==
  IF x.k = "fault" THEN [x EXCEPT !.ok = FALSE]
  ELSE [x EXCEPT !.ok = MSays(c, x),
                 !.out = IF ~MSays(c, x) THEN <<>>
                         ELSE CASE x.k = "sign" -> SigOf(c.keys[x.slot].bits, x.data)
                                [] x.k = "gen" -> <<made + 1>>
                                [] x.k = "attest" -> <<"attest", c.keys[x.slot].bits>>
                                [] OTHER -> <<>>]
CarryOut(x) ==
  /\ cards' = [cards EXCEPT ![x.card] = CardAfter(@, x)]
  /\ hs' = IF x.k = "reset" /\ ~(run.e.call = "reconnect" /\ run.e.k = x.card)
           THEN [hs EXCEPT ![x.card].link = IF @ = "up" THEN "reset" ELSE @]
           ELSE IF x.k = "verify" /\ x.ok /\ run.e.call = "unlock" THEN [hs EXCEPT ![x.card].pin = <<run.e.pin>>] ELSE hs
  /\ knows' = [knows EXCEPT ![x.card] = IF Forgets(x) THEN FALSE ELSE IF x.k = "verify" THEN x.ok ELSE @]
  /\ made' = IF x.k = "gen" /\ x.ok THEN made + 1 ELSE made
Cleanup(q) == SelectSeq(q, LAMBDA x : x.always)
\* a PIN that is no longer right does not keep a token from being opened again
Rest(x, q) ==
  IF x.ok THEN q
  ELSE IF run.e.call = "reconnect" THEN (IF x.k = "verify" THEN Looking(run.e.k) ELSE q)
  ELSE Cleanup(q)
Step == /\ Busy /\ run.todo # <<>>
        /\ LET x == Answer(cards[Head(run.todo).card], Head(run.todo)) IN
           /\ CarryOut(x)
           /\ run' = [run EXCEPT !.todo = Rest(x, Tail(@)), !.e.cmds = Append(@, x),
                                 !.st = IF x.ok \/ run.e.call = "reconnect" THEN @ ELSE "err",
                                 !.ek = IF ~x.ok /\ x.k = "get" /\ run.e.call = "sign_data" THEN "Unprovisioned" ELSE @]
        /\ UNCHANGED <<old, brk, hist>>
\* the connection breaks: the command does not get there, or its answer does not get back
Lose == /\ Busy /\ run.todo # <<>> /\ brk < Breaks
        /\ Head(run.todo).k \in EffectKinds /\ run.e.call # "reconnect"
        /\ \E late \in BOOLEAN :
             LET x == Answer(cards[Head(run.todo).card], Head(run.todo))
                 f == [Cmd(x.card, "fault") EXCEPT !.ok = FALSE]
             IN /\ IF late THEN CarryOut(x) ELSE UNCHANGED <<cards, hs, knows, made>>
                /\ run' = [run EXCEPT !.todo = Cleanup(Tail(@)), !.e.cmds = IF late THEN @ \o <<x, f>> ELSE Append(@, f), !.st = "err"]
                /\ hist' = Append(hist, [a |-> "lose", n |-> Len(Effects(run.e.cmds)) + 1, late |-> late])
        /\ brk' = brk + 1
        /\ UNCHANGED old
Result(e) ==
  LET sig == e.cmds[Len(e.cmds)].out IN
  CASE e.call = "provision" -> MadeKey(e.alg, e.cmds[1].out)
    [] e.call = "sign_data" -> sig
    [] e.call = "signer" -> <<Key(e.k, e.slot).key, sig>>
    [] e.call = "csr" -> [Der(Key(e.k, e.slot).key, e.cn) EXCEPT !.sig = e.cmds[Len(e.cmds) - 1].out]
    [] e.call = "attest" -> sig
    [] e.call = "fetch_pub" -> Key(e.k, e.slot).key
    [] OTHER -> <<>>
Told == LET bad == run.st = "err" \/ Wrong(run.e) IN
        [run.e EXCEPT !.st = IF bad THEN "err" ELSE "ok",
                      !.ek = IF ~bad THEN "" ELSE IF run.e.call = "reconnect" THEN "NoSuchYubikey"
                             ELSE IF run.st # "err" THEN "WrongKeyType" ELSE run.ek,
                      !.out = IF run.e.call = "reconnect" THEN cards[run.e.k].serial ELSE IF bad THEN <<>> ELSE Result(run.e)]
Finish == /\ Busy /\ run.todo = <<>>
          /\ hist' = Append(hist, [a |-> "call", call |-> run.e.call, k |-> run.e.k, slot |-> run.e.slot, alg |-> run.e.alg,
                                   pinp |-> run.e.pinp, touchp |-> run.e.touchp, pin |-> run.e.pin, st |-> Told.st])
          /\ hs' = IF run.e.call = "reconnect" /\ Told.st = "ok" 
                   \* a new connection has seen no PIN
                   THEN [hs EXCEPT ![run.e.k] = [link |-> "up", pin |-> IF AllDone(run.e.cmds) THEN @.pin ELSE <<>>]] ELSE hs
          /\ run' = Idle
          /\ UNCHANGED <<cards, old, knows, made, brk>>
Happens == /\ ~Busy /\ Room /\ "env" \in Menu
           /\ \E i \in {1, 2}, a \in {"plug", "unplug", "touch", "pin"} :
                /\ CASE a = "plug" -> ~cards[i].plugged [] a = "unplug" -> cards[i].plugged [] a = "touch" -> cards[i].touch /\ i = 1
                     [] a = "pin" -> i = 1 /\ cards[i].pin = PinNo(1)
                /\ cards' = [cards EXCEPT ![i] = CASE a = "plug" -> [@ EXCEPT !.plugged = TRUE]
                                                   [] a = "unplug" -> [Cleared(@) EXCEPT !.plugged = FALSE]
                                                   [] a = "touch" -> [@ EXCEPT !.touch = FALSE]
                                                   [] a = "pin" -> [@ EXCEPT !.pin = PinNo(2)]]
                /\ hs' = IF a = "unplug" THEN [hs EXCEPT ![i].link = "stale"] ELSE hs
                /\ knows' = IF a = "unplug" THEN [knows EXCEPT ![i] = FALSE] ELSE knows
                /\ hist' = Append(hist, [a |-> a, k |-> i])
           /\ UNCHANGED <<run, old, made, brk>>
Next == Begin \/ Step \/ Lose \/ Finish \/ Happens
Spec == Init /\ [][Next]_vars

(* ---- C28 ---- *)
\* the contract of a call, as recorded calls are judged by it
Judged(e) ==
  LET eff == Effects(e.cmds)  w == [cards |-> old]  c == old[e.k] IN
  CASE e.call = "unlock" ->
         \* management keys are abstract here
         LET Shown(j) == eff[j].card = e.k /\ IF j = 1 THEN eff[j].k = "verify" /\ eff[j].data = Pad8(e.pin) ELSE eff[j].k = "auth" IN
         Follows(eff, 2, Shown) /\ Outcome(e, eff, 2, TRUE)
    [] e.call = "provision" -> ProvisionOk(e, e.k, eff, CertOfDer, MHash, Same)
    [] e.call = "sign_data" -> SignDataOk(e, c, e.k, eff, KeyInDer, MHash)
    [] e.call = "signer" -> SignerOk(e, c, e.k, eff, KeyInDer, MHash, MSsh)
    [] e.call = "csr" -> CsrOk(e, c, e.k, eff, KeyInDer, CertOfDer, MHash)
    [] e.call = "attest" -> AttestOk(e, e.k, eff)
    [] e.call = "write" -> WriteOk(e, e.k, eff, e.der, CertOfDer)
    [] e.call = "fetch_pub" -> ReadOk(e, c, eff, KeyInDer, Same, Ident)
    [] e.call = "reconnect" -> ReconnectOk(e, w, e.k, hs[e.k].pin, eff)
Kept == (Busy /\ run.todo = <<>>) => Judged(Told)
\* nothing but the slot asked for on the token asked for is ever changed
OnlyThere == Busy =>
  \A i \in {1, 2}, s \in Two :
    (i # run.e.k \/ s # run.e.slot \/ run.e.call \notin {"provision", "write"}) =>
      /\ (s \in DOMAIN cards[i].keys) = (s \in DOMAIN old[i].keys) /\ (s \in DOMAIN cards[i].certs) = (s \in DOMAIN old[i].certs)
      /\ s \in DOMAIN cards[i].keys => cards[i].keys[s] = old[i].keys[s]
      /\ s \in DOMAIN cards[i].certs => cards[i].certs[s] = old[i].certs[s]
\* no call uses up more than one try, nor one on another token
OneTry == Busy => \A i \in {1, 2} : cards[i].tries >= old[i].tries - (IF i = run.e.k THEN 1 ELSE 0)
\* keys are used where asked for, and on a token that trusts its user only after the right PIN was shown
UsedRightly == Busy => \A j \in 1..Len(run.e.cmds) :
  LET x == run.e.cmds[j] IN (x.k = "sign" /\ x.ok) => x.card = run.e.k /\ x.slot = run.e.slot
Trusted == \A i \in {1, 2} : cards[i].verified => knows[i]
\* what a token was provisioned with is what was asked for
AsAsked == (Busy /\ run.todo = <<>> /\ run.e.call = "provision" /\ Told.st = "ok") =>
  LET e == run.e  c == cards[e.k] IN
  /\ c.keys[e.slot].alg = e.alg /\ c.keys[e.slot].pinp = e.pinp /\ c.keys[e.slot].touchp = e.touchp /\ c.keys[e.slot].made
  /\ Key(e.k, e.slot).key = MadeKey(e.alg, c.keys[e.slot].bits)
Scenario == (~Busy /\ ~Room) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
