----------------------------- MODULE MC_Chain -----------------------------
(* Attestation chains: who signed what, what was altered afterwards and     *)
(* what the signed statements say, with up to Devs things that are not as   *)
(* in a genuine attestation.  The certificates are real DER; signatures are *)
(* perfect and named by what they are: the key followed by the content.     *)
(* The table says from the choices alone what the verifier must conclude.   *)
EXTENDS Der, Json

CONSTANTS Devs, Whats

VARIABLES what, pick, res
vars == <<what, pick, res>>

(* ---- DER ---- *)
L(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
D(tag, v) == <<tag>> \o L(Len(v)) \o v
\* the principals: root R, another root S, the attestation authority I, the
\* attested key L, someone else X
Bits(w) == CASE w = "R" -> <<4, 1, 1>> [] w = "S" -> <<4, 2, 2>> [] w = "I" -> <<4, 3, 3>> [] w = "L" -> <<4, 5, 5>> [] OTHER -> <<4, 6, 6>>
AlgEc(h) == D(48, D(6, <<42, 134, 72, 206, 61, 4, 3, h>>))
SpkiDer(w, kind) ==
  D(48, (CASE kind = "p384" -> D(48, D(6, OidEc) \o D(6, OidP384)) [] kind = "rsa" -> D(48, D(6, <<42, 134, 72, 134, 247, 13, 1, 1, 1>>) \o D(5, <<>>))
           [] kind = "ed" -> D(48, D(6, <<43, 101, 112>>)) [] OTHER -> D(48, D(6, OidEc) \o D(6, OidP256)))
        \o D(3, <<0>> \o Bits(w)))
ExtDer(e) == D(48, D(6, e.oid) \o (CASE e.crit = "yes" -> D(1, <<255>>) [] e.crit = "no" -> D(1, <<0>>) [] OTHER -> <<>>) \o D(4, e.v))
Tbs(w, kind, exts) ==
  D(48, D(160, D(2, <<2>>)) \o D(2, <<1>>) \o AlgEc(2) \o D(48, <<>>) \o D(48, <<>>) \o D(48, <<>>) \o SpkiDer(w, kind)
        \o (IF exts = <<>> THEN <<>> ELSE D(163, D(48, Flatten([i \in 1..Len(exts) |-> ExtDer(exts[i])])))))
SigOf(by, content) == Bits(by) \o WrBytes(content)
\* a certificate for w by `by`, altered afterwards
Crt(w, kind, exts, by, change) ==
  LET t == Tbs(w, kind, exts)
      t2 == IF change = "content" THEN Tbs("X", kind, exts) ELSE t
      s == CASE change = "sig" -> <<9>> \o Tail(SigOf(by, t)) [] change = "no sig" -> <<>> [] change = "long sig" -> SigOf(by, t) \o <<0>> [] OTHER -> SigOf(by, t)
  IN D(48, t2 \o AlgEc(IF change = "alg" THEN 3 ELSE 2) \o D(3, <<0>> \o s))
XFact(alg, bits, tbs, sig) == alg = <<42, 134, 72, 206, 61, 4, 3, 2>> /\ sig = bits \o WrBytes(tbs)
Fact(alg, key, msg, sig) == alg = "p256der" /\ sig = key[1] \o WrBytes(msg)
ASSUME X509(Crt("L", "p256", <<>>, "I", "own")).ok

(* ---- what the statements say ---- *)
X(o, v, c) == [oid |-> o, v |-> v, crit |-> c]
Crit(q) == CASE q.crit = "yes" -> "yes" [] q.crit = "no" -> "no" [] OTHER -> "none"
PivFw(q) == CASE q.fw = "short" -> <<<<5, 4>>>> [] q.fw = "long" -> <<<<5, 4, 3, 2>>>> [] q.fw = "none" -> <<>> [] q.fw = "high" -> <<<<255, 0, 128>>>> [] OTHER -> <<<<5, 4, 3>>>>
PivSn(q) == CASE q.sn = "none" -> <<>> [] q.sn = "tag" -> << D(4, <<1>>) >> [] q.sn = "8" -> << D(2, <<127, 2, 3, 4, 5, 6, 7, 8>>) >> [] q.sn = "9" -> << D(2, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>) >>
              [] q.sn = "0" -> << D(2, <<0>>) >> [] q.sn = "cut" -> <<<<2, 4, 1, 2>>>> [] OTHER -> << D(2, <<0, 200, 2, 3>>) >>
PivPo(q) == CASE q.po = "none" -> <<>> [] q.po = "one" -> <<<<2>>>> [] q.po = "three" -> <<<<3, 1, 9>>>> [] q.po = "empty" -> << <<>> >> [] q.po = "swap" -> <<<<1, 3>>>> [] OTHER -> <<<<3, 1>>>>
FidoFw(q) == CASE q.fw = "none" -> <<>> [] q.fw = "short" -> << D(4, <<5, 4>>) >> [] q.fw = "long" -> << D(4, <<5, 4, 3, 2>>) >> [] q.fw = "high" -> << D(4, <<255, 0, 128>>) >>
               [] q.fw = "bare" -> <<<<5, 4, 3>>>> [] OTHER -> << D(4, <<5, 4, 3>>) >>
Guid == [i \in 1..16 |-> 16 * (i - 1) + 3]
FidoAg(q) == CASE q.ag = "none" -> <<>> [] q.ag = "short" -> << D(4, Tail(Guid)) >> [] q.ag = "long" -> << D(4, Guid \o <<1>>) >> [] q.ag = "bare" -> << Guid >> [] OTHER -> << D(4, Guid) >>
FidoTr(q) == CASE q.tr = "none" -> <<>> [] q.tr = "all" -> << D(3, <<3, 248>>) >> [] q.tr = "empty" -> << D(3, <<0>>) >> [] q.tr = "ble" -> << D(3, <<6, 64>>) >>
               [] q.tr = "low" -> << D(3, <<0, 7>>) >> [] q.tr = "octets" -> << D(4, <<4, 48>>) >> [] q.tr = "two" -> << D(3, <<0, 128, 255>>) >> [] OTHER -> << D(3, <<4, 48>>) >>
Listed(oid, vs, q) == [i \in 1..Len(vs) |-> X(oid, vs[i], Crit(q))]
Near(q) == IF q.near = "own" THEN <<>> ELSE << X((IF what = "piv" THEN OidFwPiv ELSE OidFwFido) \o <<1>>, <<4, 3, 9, 9, 9>>, "none"),
                                                X(Take(IF what = "piv" THEN OidSnPiv ELSE OidAaguid, 9), <<1, 2, 3>>, "none"), X(<<85, 29, 19>>, D(48, <<>>), "yes") >>
PivExts(q) == LET all == Listed(OidFwPiv, PivFw(q), q) \o Listed(OidSnPiv, PivSn(q), q) \o Listed(OidPolPiv, PivPo(q), q) \o Near(q)
              IN IF q.order = "back" THEN Reverse(all) ELSE all
FidoExts(q) == LET all == Listed(OidFwFido, FidoFw(q), q) \o Listed(OidAaguid, FidoAg(q), q) \o Listed(OidTrans, FidoTr(q), q) \o Near(q)
               IN IF q.order = "back" THEN Reverse(all) ELSE all

(* ---- authenticator data ---- *)
Ad(q) == [i \in 1..32 |-> 200 + i] \o << IF q.ad = "no key" THEN 5 ELSE 69 >> \o <<0, 0, 1, 0>> \o Guid \o <<0, 2, 7, 7>>
         \o <<164, 1, 1, 3, 39, 32, 6, 33, 67, 1, 2, 3>>
Challenge == <<10, 20, 30, 40>>
\* what was signed, and what is presented
SignedMsg(q) == Ad(q) \o Challenge
\* moving the boundary between the two leaves the signed octets as they are
AdShown(q) == CASE q.ad = "changed" -> [Ad(q) EXCEPT ![54] = 0, ![55] = 1] [] q.ad = "counter" -> [Ad(q) EXCEPT ![36] = 2]
                [] q.ad = "cut" -> Take(Ad(q), Len(Ad(q)) - 1) [] q.ad = "more" -> Ad(q) \o <<10>> [] OTHER -> Ad(q)
ChShown(q) == CASE q.ch = "other" -> <<10, 20, 30, 41>> [] q.ch = "empty" -> <<>> [] q.ch = "more" -> Challenge \o <<0>>
                [] q.ch = "moved" -> Tail(Challenge) [] q.ch = "taken" -> <<3>> \o Challenge [] OTHER -> Challenge
Alg(q) == CASE q.alg = "eddsa" -> -8 [] q.alg = "rs256" -> -257 [] q.alg = "7" -> 7 [] q.alg = "0" -> 0 [] OTHER -> -7

Common == [ root   |-> {"S", "I", "L", "yubico", "none", "broken"},
            iby    |-> {"S", "I", "X", "L"},
            ialter |-> {"content", "sig", "no sig", "long sig", "alg"},
            fw     |-> {"none", "short", "long", "high"},
            crit   |-> {"yes", "no"},
            order  |-> {"back"},
            near   |-> {"there"} ]
PivOnly == [ lby    |-> {"R", "S", "L", "X"},
             lalter |-> {"content", "sig", "no sig", "long sig", "alg"},
             lkind  |-> {"p384", "rsa", "ed"},
             sn     |-> {"none", "tag", "8", "9", "0", "cut"},
             po     |-> {"none", "one", "three", "empty", "swap"},
             swap   |-> {"leaf", "both"} ]
FidoOnly == [ sby   |-> {"R", "S", "L", "X"},
              salter |-> {"sig", "empty", "long", "cut"},
              ad    |-> {"changed", "counter", "cut", "more", "no key"},
              ch    |-> {"other", "empty", "more", "moved", "taken"},
              alg   |-> {"eddsa", "rs256", "7", "0"},
              ag    |-> {"none", "short", "long", "bare"},
              tr    |-> {"none", "all", "empty", "ble", "low", "octets", "two"},
              fwb   |-> {"bare"} ]
Changes(w) == Common @@ (IF w = "piv" THEN PivOnly ELSE FidoOnly)
Base(w) == [n |-> 0] @@ [d \in DOMAIN Changes(w) |-> "own"]

(* ---- the certificates ---- *)
RootW(q) == IF q.root \in {"own", "S", "I", "L"} THEN (IF q.root = "own" THEN "R" ELSE q.root) ELSE ""
By(v, own) == IF v = "own" THEN own ELSE v
Inter(q) == Crt("I", "p256", IF what = "fido" THEN FidoExts(IF q.fwb = "own" THEN q ELSE [q EXCEPT !.fw = "bare"]) ELSE <<>>, By(q.iby, "R"), q.ialter)
Leaf(q) == Crt("L", IF q.lkind = "own" THEN "p256" ELSE q.lkind, PivExts(q), By(q.lby, "I"), q.lalter)
RootCert(q) == IF RootW(q) = "" THEN <<>> ELSE Crt(RootW(q), "p256", <<>>, RootW(q), "own")
LeafShown(q) == IF q.swap = "own" THEN Leaf(q) ELSE IF q.swap = "leaf" THEN Inter(q) ELSE Inter(q)
InterShown(q) == IF q.swap = "both" THEN Leaf(q) ELSE Inter(q)
SigShown(q) == LET s == SigOf(By(q.sby, "I"), SignedMsg(q)) IN
  CASE q.salter = "sig" -> <<9>> \o Tail(s) [] q.salter = "empty" -> <<>> [] q.salter = "long" -> s \o <<0>> [] q.salter = "cut" -> Take(s, Len(s) - 1) [] OTHER -> s

Init == what \in Whats /\ pick = Base(what) /\ res = <<>>
Deviate == /\ res = <<>> /\ pick.n < Devs
           /\ \E d \in DOMAIN Changes(what) : pick[d] = "own" /\ \E v \in Changes(what)[d] : pick' = [pick EXCEPT ![d] = v, !.n = @ + 1]
           /\ UNCHANGED <<what, res>>
Verdict == IF what = "piv" THEN PivVerify(LeafShown(pick), InterShown(pick), RootCert(pick), XFact)
           ELSE FidoVerify(AdShown(pick), SigShown(pick), ChShown(pick), Alg(pick), Inter(pick), RootCert(pick), XFact, Fact)
ExtJ(es) == [i \in 1..Len(es) |-> [oid |-> es[i].oid, v |-> es[i].v, crit |-> es[i].crit]]
Out(v) == IF ~v.ok THEN <<>>
          ELSE IF what = "piv" THEN << [fw |-> v.fw, sn |-> v.sn, pin |-> v.pin, touch |-> v.touch, kt |-> v.key.kt] >>
          ELSE << [fw |-> v.fw, aaguid |-> v.aaguid, tr |-> v.tr, key |-> v.auth.key] >>
Verify == /\ res = <<>>
          /\ \E v \in {Verdict} :
               /\ res' = << v >>
               /\ PrintT("SCEN " \o ToJson([what |-> what, q |-> pick, out |-> Out(v),
                    exts |-> IF what = "piv" THEN ExtJ(PivExts(pick)) ELSE ExtJ(FidoExts(IF pick.fwb = "own" THEN pick ELSE [pick EXCEPT !.fw = "bare"])),
                    ad |-> IF what = "piv" THEN <<>> ELSE Ad(pick), msg |-> IF what = "piv" THEN <<>> ELSE SignedMsg(pick),
                    shown |-> IF what = "piv" THEN <<>> ELSE AdShown(pick), ch |-> IF what = "piv" THEN <<>> ELSE ChShown(pick), alg |-> IF what = "piv" THEN 0 ELSE Alg(pick)]))
          /\ UNCHANGED <<what, pick>>
Next == Deviate \/ Verify
Spec == Init /\ [][Next]_vars

(* ---- C19, C20 ---- *)
Genuine(q) == /\ q.ialter = "own" /\ RootW(q) # "" /\ By(q.iby, "R") = RootW(q)
PivFine(q) ==
  /\ Genuine(q) /\ q.swap = "own"
  /\ q.lalter = "own" /\ q.lby = "own"
  /\ q.lkind \in {"own", "p384"}
  /\ q.fw \in {"own", "high"} /\ q.sn \in {"own", "8", "0"} /\ q.po \in {"own", "three", "swap"}
\* the same octets on both sides of a moved boundary are the same signature
SameOctets(q) == \/ q.ad \in {"own", "no key"} /\ q.ch = "own"
                 \/ q.ad = "more" /\ q.ch = "moved"
                 \/ q.ad = "cut" /\ q.ch = "taken"
FidoFine(q) ==
  /\ Genuine(q) /\ q.alg = "own" /\ q.sby = "own" /\ q.salter = "own"
  /\ SameOctets(q) /\ q.ad \in {"own", "more"}
  /\ q.fwb = "own" /\ q.ag # "bare" /\ q.tr # "octets"
Sound == res # <<>> => res[1].ok = (IF what = "piv" THEN PivFine(pick) ELSE FidoFine(pick))
\* what is reported is what the certificate of the attested device says
PivSays == res # <<>> /\ what = "piv" /\ res[1].ok =>
  LET v == res[1] IN
  /\ v.key = [kt |-> IF pick.lkind = "p384" THEN "ecdsa-sha2-nistp384" ELSE "ecdsa-sha2-nistp256", p |-> << IF pick.lkind = "p384" THEN A("nistp384") ELSE A("nistp256"), Bits("L")>>]
  /\ v.fw = (IF pick.fw = "high" THEN A("255.0.128") ELSE A("5.4.3"))
  /\ v.sn = (CASE pick.sn = "8" -> <<127, 2, 3, 4, 5, 6, 7, 8>> [] pick.sn = "0" -> Zeros(8) [] OTHER -> <<0, 0, 0, 0, 0, 200, 2, 3>>)
  /\ v.pin = (IF pick.po = "swap" THEN 1 ELSE 3) /\ v.touch = (IF pick.po = "swap" THEN 3 ELSE 1)
FidoSays == res # <<>> /\ what = "fido" /\ res[1].ok =>
  LET v == res[1] IN
  /\ v.fw = (CASE pick.fw = "high" -> << A("255.0.128") >> [] pick.fw = "own" -> << A("5.4.3") >> [] OTHER -> <<>>)
  /\ v.aaguid = (IF pick.ag = "own" THEN << Guid >> ELSE <<>>)
  /\ v.tr = (CASE pick.tr = "none" -> <<>> [] pick.tr = "all" -> << TransportNames >> [] pick.tr \in {"empty", "low"} -> << <<>> >>
               [] pick.tr = "ble" -> <<<<"BluetoothLE">>>> [] pick.tr = "two" -> <<<<"Bluetooth">>>> [] OTHER -> <<<<"USB", "NFC">>>>)
  /\ v.auth.key = <<1, 2, 3>> /\ v.auth.cred = <<7, 7>>
=============================================================================
