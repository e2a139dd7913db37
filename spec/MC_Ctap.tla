------------------------------ MODULE MC_Ctap ------------------------------
(* The library at work on two FIDO tokens, command by command.  The library *)
(* finds the tokens, has the user choose one if there are several, shows it *)
(* the PIN if it must, and makes a key or signs; a token may refuse or be   *)
(* taken out at any command, before it is carried out or after.  Every      *)
(* history of Calls calls and events is a scenario.                         *)
EXTENDS Ctap, Json

CONSTANTS Calls,    \* how many calls and events
          Breaks,   \* how many of them go wrong
          Wide,     \* all kinds of tokens and calls, or the most telling ones
          Menu

VARIABLES toks, run, old, brk, hist
vars == <<toks, run, old, brk, hist>>

(* ---- abstract hashes, challenges, attestations and signatures ---- *)
App(i) == <<i>>
PinNo(i) == <<i, i>>
MHash(a, x) == <<[j \in 1..16 |-> IF j <= Len(x) THEN x[j] ELSE 0]>>
HashOfPin(i) == SubSeq(MHash("sha256", PinNo(i))[1], 1, 16)
Ch(n) == [j \in 1..32 |-> n]
KeyOfCred(id, app) == [kt |-> "sk", p |-> <<id, app>>]
MAttested(x, app) == IF x.sig = <<"by", "maker", x.cdh>> THEN [ok |-> TRUE, key |-> KeyOfCred(x.ad[1], app), flags |-> 65, cred |-> x.ad[1]]
                     ELSE [ok |-> FALSE]
MSsh(key, sig) == << <<key, sig>> >>
Same(a, b) == a = b
Ident(x) == x

Tok0(i) == [plugged |-> TRUE, v21 |-> i = 1, pins |-> TRUE, pin |-> <<HashOfPin(i)>>, tries |-> 8, strikes |-> 0, always |-> FALSE,
            notrqd |-> FALSE, touch |-> i = 1, refusal |-> 47, granted |-> FALSE, creds |-> << [id |-> <<i>>, rp |-> App(1)] >>]
Idle == [e |-> <<>>, i |-> 0, todo |-> <<>>]
Busy == run.e # <<>>
Init == /\ \E al \in BOOLEAN, nr \in BOOLEAN, has \in BOOLEAN, worn \in {0, 2}, few \in BOOLEAN, two \in BOOLEAN :
             /\ (~has => worn = 0 /\ ~few /\ ~nr)
             /\ Wide \/ (~nr /\ (few <=> worn = 0) /\ (al => two) /\ has)
             /\ toks = <<[Tok0(1) EXCEPT !.always = al, !.notrqd = nr, !.pin = IF has THEN @ ELSE <<>>, !.strikes = worn,
                                         !.tries = IF few THEN 1 ELSE 8],
                         [Tok0(2) EXCEPT !.plugged = two]>>
             /\ hist = <<[a |-> "start", always |-> al, notrqd |-> nr, has |-> has, worn |-> worn, few |-> few, two |-> two]>>
        /\ run = Idle /\ old = toks /\ brk = 0

(* ---- what the library does in a call ---- *)
Cmd(i, k) == [tok |-> i, k |-> k, rp |-> <<>>, user |-> <<>>, uname |-> <<>>, algs |-> <<>>, rk |-> FALSE, cdh |-> <<>>, allow |-> <<>>,
              pinh |-> <<>>, auth |-> "none", st |-> 0, heard |-> TRUE, said |-> FALSE, fmt |-> "", alg |-> 0, ad |-> <<>>, sig |-> <<>>,
              x5c |-> <<>>, left |-> 0]
Choosing(i) == IF Cardinality(LiveToks(toks)) = 1 THEN <<>>
               ELSE [j \in 1..2 |-> Cmd(IF j = 1 THEN i ELSE 3 - i, IF toks[IF j = 1 THEN i ELSE 3 - i].v21 THEN "select" ELSE "blink")]
Unlocking(e, i) ==
  IF toks[i].pin = <<>> \/ ~TokWants(toks[i], e.call = "gen") THEN <<>>
  ELSE <<Cmd(i, "agree"), [Cmd(i, "pin") EXCEPT !.pinh = SubSeq(MHash("sha256", e.pin[1])[1], 1, 16)]>>
NeedsPin(e, i) == TokWants(toks[i], e.call = "gen") /\ toks[i].pins /\ (toks[i].pin = <<>> \/ e.pin = <<>>)
Asking(e, i) ==
  LET au == IF Unlocking(e, i) = <<>> THEN "none" ELSE "good" IN
  IF e.call = "gen"
  THEN <<[Cmd(i, "make") EXCEPT !.rp = e.app, !.user = e.app, !.uname = e.app, !.algs = <<-8>>, !.cdh = Ch(Len(hist)), !.auth = au]>>
  ELSE LET x == [Cmd(i, "probe") EXCEPT !.rp = AppOf(e.key), !.allow = <<e.handle>>, !.auth = au, !.cdh = Ch(0)] IN
       IF TokHolds(toks[i], x.rp, x.allow) THEN <<x, [x EXCEPT !.k = "assert", !.cdh = MHash("sha256", e.msg)[1]]>>
       ELSE <<x, Cmd(i, "blink")>>
Todo(e, i) == Choosing(i) \o (IF NeedsPin(e, i) THEN <<>> ELSE Unlocking(e, i) \o Asking(e, i))

Ask0 == [call |-> "", app |-> <<>>, comment |-> <<>>, pin |-> <<>>, att |-> "", handle |-> <<>>, key |-> <<>>, msg |-> <<>>,
         cmds |-> <<>>, hit |-> FALSE, gone |-> <<>>, st |-> "", ek |-> "", left |-> <<>>, out |-> <<>>]
Pins == {<<>>, <<PinNo(1)>>, <<PinNo(2)>>}
MayAsk ==
  (IF "gen" \in Menu THEN {[Ask0 EXCEPT !.call = "gen", !.app = App(1), !.pin = p, !.att = a] :
                               p \in Pins, a \in {"maker", "other"} \cup (IF Wide THEN {"stale"} ELSE {})} ELSE {})
  \cup (IF "sign" \in Menu THEN {[Ask0 EXCEPT !.call = c, !.pin = p, !.handle = <<h>>, !.key = KeyOfCred(<<h>>, App(a)), !.msg = <<7>>] :
                                   c \in IF Wide THEN {"sign", "issue"} ELSE {"sign"}, p \in Pins, h \in {1, 2}, a \in IF Wide THEN {1, 2} ELSE {1}} ELSE {})
Happened == Len(SelectSeq(hist, LAMBDA x : x.a \in {"call", "env"}))
Room == Happened < Calls
Begin == /\ ~Busy /\ Room
         /\ \E e \in MayAsk, i \in ChosenToks(toks) : run' = [e |-> e, i |-> i, todo |-> Todo(e, i)]
         /\ old' = toks
         /\ UNCHANGED <<toks, brk, hist>>

Answered(t, x) ==
  LET st == IF x.k \in {"select", "blink"} /\ ~t.touch THEN StCancelled ELSE CHOOSE v \in TokSays(t, x) : TRUE
      y == [x EXCEPT !.st = st, !.left = IF x.k = "tries" THEN t.tries ELSE 0]
  IN IF st # 0 THEN y
     ELSE CASE x.k = "make" -> [y EXCEPT !.fmt = "packed", !.alg = -7, !.ad = << <<9>> >>, !.x5c = << <<"cert">> >>,
                                         !.sig = <<"by", IF run.e.att = "other" THEN "other" ELSE "maker",
                                                   IF run.e.att = "stale" THEN Ch(99) ELSE x.cdh>>]
            [] x.k = "assert" -> [y EXCEPT !.ad = [j \in 1..37 |-> IF j <= 32 THEN 0 ELSE j], !.sig = <<"sig", x.allow[1], x.rp, x.cdh>>]
            [] OTHER -> y
\* a wrong PIN: how many tries are left; anything else refused: that is it
Rest(x, q) == IF x.k \in {"select", "blink"} THEN q
              ELSE IF x.k = "pin" /\ x.st = StInvalidPin THEN <<Cmd(x.tok, "tries")>>
              ELSE IF x.st = 0 THEN q
              ELSE <<>>
Step == /\ Busy /\ run.todo # <<>>
        /\ LET x == Answered(toks[Head(run.todo).tok], Head(run.todo)) IN
           /\ toks' = [toks EXCEPT ![x.tok] = TokAfter(@, x)]
           /\ run' = [run EXCEPT !.todo = Rest(x, Tail(@)), !.e.cmds = Append(@, x)]
        /\ UNCHANGED <<old, brk, hist>>
\* commands seen, as faults are counted
Count(q) == Len(SelectSeq(q, LAMBDA x : ~(x.k \in {"select", "blink"} /\ x.st = StCancelled)))
Breaking == Busy /\ run.todo # <<>> /\ brk < Breaks /\ ~run.e.hit /\ Head(run.todo).k \notin {"select", "blink"} /\ brk' = brk + 1
Note(how) == hist' = Append(hist, [a |-> "break", n |-> Count(run.e.cmds), how |-> how])
\* taken out: the command does not get there, or its answer does not get back
Lose == /\ Breaking
        /\ \E late \in BOOLEAN :
             LET x == [Answered(toks[run.i], Head(run.todo)) EXCEPT !.heard = FALSE] IN
             /\ toks' = TokGone(IF late THEN [toks EXCEPT ![run.i] = TokAfter(@, x)] ELSE toks, <<run.i>>)
             /\ run' = [run EXCEPT !.todo = <<>>, !.e.cmds = IF late THEN Append(@, x) ELSE @, !.e.hit = TRUE, !.e.gone = <<run.i>>]
             /\ Note(IF late THEN "after" ELSE "before")
        /\ UNCHANGED old
\* refuses for reasons of its own
Refuse == /\ Breaking
          /\ LET x == [Head(run.todo) EXCEPT !.st = 58, !.said = TRUE] IN
             run' = [run EXCEPT !.todo = IF x.k \in {"tries", "probe"} THEN <<>> ELSE Rest(x, Tail(@)), !.e.cmds = Append(@, x), !.e.hit = TRUE]
          /\ Note("refuse")
          /\ UNCHANGED <<toks, old>>
\* what the caller is told
Told ==
  LET e == run.e  q == Doing(e.cmds)  t == old[run.i]
      m == Kind(q, "make")  p == Kind(q, "pin")  n == Kind(q, "tries")
      made == m # <<>> /\ Heard(m[1]) /\ MAttested(m[1], e.app).ok
      why == IF p # <<>> /\ p[1].heard /\ p[1].st \in {StInvalidPin, StLocked, StBlocked} THEN PinWhy(p[1].st)
             ELSE IF TokWants(t, TRUE) /\ t.pin # <<>> /\ e.pin = <<>> THEN "PinRequired" ELSE "other"
      r == Signed(e.key, q, MSsh)
  IN IF e.call = "gen"
     THEN IF made THEN [e EXCEPT !.st = "ok", !.out = [kt |-> "sk-ssh-ed25519@openssh.com", key |-> KeyOfCred(m[1].ad[1], e.app), comment |-> e.comment,
                                                      flags |-> 65, handle |-> m[1].ad[1], reserved |-> <<>>, pin |-> e.pin, path |-> <<>>,
                                                      ad |-> m[1].ad, sig |-> m[1].sig, ch |-> m[1].cdh, alg |-> m[1].alg,
                                                      inter |-> m[1].x5c[1], back |-> TRUE]]
          ELSE [e EXCEPT !.st = "err", !.ek = why, !.left = IF why = "InvalidPin" /\ n # <<>> /\ Heard(n[1]) THEN <<n[1].left>> ELSE <<>>]
     ELSE IF r # <<>> THEN [e EXCEPT !.st = "ok", !.out = r[1]] ELSE [e EXCEPT !.st = "err"]
Finish == /\ Busy /\ run.todo = <<>>
          /\ hist' = Append(hist, [a |-> "call", call |-> run.e.call, pin |-> run.e.pin, att |-> run.e.att, handle |-> run.e.handle,
                                   app |-> IF run.e.call = "gen" THEN run.e.app ELSE AppOf(run.e.key), st |-> Told.st])
          /\ run' = Idle
          /\ UNCHANGED <<toks, old, brk>>
\* between calls
Happens == /\ ~Busy /\ Room /\ "env" \in Menu
           /\ \E i \in {1, 2}, a \in {"plug", "unplug", "power", "touch", "repin"} :
                LET n == CASE a = "plug" -> [toks[i] EXCEPT !.plugged = TRUE, !.strikes = 0]
                           [] a = "unplug" -> [toks[i] EXCEPT !.plugged = FALSE, !.granted = FALSE]
                           [] a = "power" -> [toks[i] EXCEPT !.strikes = 0, !.granted = FALSE]
                           [] a = "touch" -> [toks[i] EXCEPT !.touch = ~@]
                           [] a = "repin" -> [toks[i] EXCEPT !.pin = <<HashOfPin(2)>>, !.tries = 8, !.strikes = 0]
                IN /\ n # toks[i]
                   /\ a = "repin" => i = 1
                   /\ a # "plug" => toks[i].plugged
                   /\ toks' = [toks EXCEPT ![i] = n]
                   \* somebody is there to touch one, and one only
                   /\ Cardinality(ChosenToks(toks')) = 1
                   /\ hist' = Append(hist, [a |-> "env", what |-> a, k |-> i])
           /\ UNCHANGED <<run, old, brk>>
\* if no token is left one is put back
Back == /\ ~Busy /\ Room /\ ChosenToks(toks) = {}
        /\ toks' = [toks EXCEPT ![1] = [@ EXCEPT !.plugged = TRUE, !.touch = TRUE, !.strikes = 0]]
        /\ hist' = Append(hist, [a |-> "env", what |-> "back", k |-> 1])
        /\ UNCHANGED <<run, old, brk>>
Next == Begin \/ Step \/ Lose \/ Refuse \/ Finish \/ Happens \/ Back
Spec == Init /\ [][Next]_vars

(* ---- C29 ---- *)
Judged(e) == IF e.call = "gen" THEN MakeOk(e, old, MHash, MAttested, Same, Ident)
             ELSE SignOk(e, e.key, old, MHash, MSsh, LAMBDA r : TRUE)
\* calls keep their contract, and the tokens answer as tokens do
Kept == (Busy /\ run.todo = <<>>) => Judged(Told) /\ TokWalk(old, run.e.cmds).ok
        /\ TokGone(TokWalk(old, run.e.cmds).toks, run.e.gone) = toks
\* no call costs more than one try, nor one on a token that was not chosen
OneTry == Busy => \A i \in {1, 2} : toks[i].tries >= old[i].tries - (IF i = run.i THEN 1 ELSE 0)
\* with the right PIN none is lost
NoTryLost == (Busy /\ run.e.pin # <<>> /\ old[run.i].pin = <<SubSeq(MHash("sha256", run.e.pin[1])[1], 1, 16)>>) => toks[run.i].tries >= old[run.i].tries
\* a PIN goes to the token chosen and no other
PinThere == Busy => \A j \in 1..Len(run.e.cmds) : run.e.cmds[j].k = "pin" => run.e.cmds[j].tok = run.i
\* nothing is made or signed that nobody touched a token for, or (if the token insists) showed the PIN
Touched == Busy => \A j \in 1..Len(run.e.cmds) :
  LET x == run.e.cmds[j] IN (x.k \in {"make", "assert"} /\ x.st = 0) =>
    /\ old[run.i].touch
    /\ TokWants(old[run.i], x.k = "make") => x.auth = "good"
\* what is signed is what was given, with the key that was named
SignedRight == (Busy /\ run.todo = <<>> /\ run.e.call # "gen" /\ Told.st = "ok") =>
  Told.out[2] = <<"sig", run.e.handle, AppOf(run.e.key), MHash("sha256", run.e.msg)[1]>>
\* what was not attested is never given out as a key
OnlyAttested == (Busy /\ run.todo = <<>> /\ run.e.call = "gen" /\ Told.st = "ok") => run.e.att = "maker"
Scenario == (~Busy /\ ~Room) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
