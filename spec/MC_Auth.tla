----------------------------- MODULE MC_Auth -----------------------------
(* Authenticator data: key maps put together from a menu of entries, alone  *)
(* or after the entries of a whole key, and unusual things about the frame  *)
(* around them, up to Budget of both, against an account that only          *)
(* remembers what each entry contributes.                                   *)
EXTENDS Fido, Json

CONSTANT Budget

VARIABLES map, frame, left, res
vars == <<map, frame, left, res>>

\* entry: octets, is it well formed, which slot it fills and with what
E(b, ok, slot, v) == [b |-> b, ok |-> ok, slot |-> slot, v |-> v]
I(neg, n) == IntKey(neg, n)
Menu == [
  ty2    |-> E(<<1, 2>>, TRUE, "ty", I(FALSE, 2)),
  ty1w   |-> E(<<24, 1, 24, 1>>, TRUE, "ty", I(FALSE, 1)),
  es256  |-> E(<<3, 38>>, TRUE, "al", I(TRUE, 6)),
  eddsa  |-> E(<<3, 57, 0, 7>>, TRUE, "al", I(TRUE, 7)),
  alpos  |-> E(<<3, 7>>, TRUE, "al", I(FALSE, 7)),
  albig  |-> E(<<3, 59, 127, 255, 255, 255, 255, 255, 255, 255>>, TRUE, "al", [neg |-> TRUE, m |-> <<127, 255, 255, 255, 255, 255, 255, 255>>]),
  alover |-> E(<<3, 59, 128, 0, 0, 0, 0, 0, 0, 0>>, FALSE, "al", <<>>),
  crv1   |-> E(<<32, 1>>, TRUE, "param", << I(FALSE, 1) >>),
  crv6   |-> E(<<56, 0, 6>>, TRUE, "param", << I(FALSE, 6) >>),
  crvn   |-> E(<<32, 38>>, TRUE, "param", << I(TRUE, 6) >>),
  x      |-> E(<<33, 66, 11, 12>>, TRUE, "x", << <<11, 12>> >>),
  xw     |-> E(<<33, 89, 0, 2, 13, 14>>, TRUE, "x", << <<13, 14>> >>),
  x0     |-> E(<<33, 64>>, TRUE, "x", << <<>> >>),
  xlong  |-> E(<<33, 91, 0, 0, 0, 1, 0, 0, 0, 1, 9>>, FALSE, "x", <<>>),
  xint   |-> E(<<33, 5>>, FALSE, "x", <<>>),
  xtext  |-> E(<<33, 98, 11, 12>>, FALSE, "x", <<>>),
  y      |-> E(<<34, 66, 21, 22>>, TRUE, "y", << <<21, 22>> >>),
  y0     |-> E(<<34, 64>>, TRUE, "y", << <<>> >>),
  ybool  |-> E(<<34, 245>>, FALSE, "y", <<>>),
  undef  |-> E(<<2, 247>>, TRUE, "none", <<>>),
  null   |-> E(<<2, 246>>, FALSE, "none", <<>>),
  kid    |-> E(<<2, 65, 7>>, FALSE, "none", <<>>),
  text   |-> E(<<97, 65, 1>>, FALSE, "none", <<>>),
  tag    |-> E(<<192, 1, 2>>, FALSE, "none", <<>>),
  resv   |-> E(<<28, 1>>, FALSE, "none", <<>>) ]

Change == [ flags |-> {"0x45", "none", "only at", "ext", "all"},
            idlen |-> {"0", "2", "256", "one over", "huge"},
            count |-> {"more", "less", "wide", "wider", "widest", "indefinite", "array", "257"},
            cut   |-> {"all", "54", "55", "last", "37"},
            after |-> {"byte", "map"} ]
Frame0 == [n |-> 0] @@ [d \in DOMAIN Change |-> "own"]

Rp == [i \in 1..32 |-> 200 + i]
Aaguid == [i \in 1..16 |-> 100 + i]
Ctr == <<1, 128, 3, 255>>
Flags == CASE frame.flags = "own" -> 65 [] frame.flags = "0x45" -> 69 [] frame.flags = "none" -> 5 [] frame.flags = "only at" -> 64 [] frame.flags = "ext" -> 192 [] OTHER -> 255
IdLen == CASE frame.idlen = "0" -> 0 [] frame.idlen = "2" -> 2 [] frame.idlen = "256" -> 256 [] OTHER -> 3
Cred == [i \in 1..IdLen |-> i % 256]
Said == CASE frame.idlen = "one over" -> <<1, 0>> [] frame.idlen = "huge" -> <<255, 255>> [] OTHER -> <<IdLen \div 256, IdLen % 256>>
Count(n) == CASE frame.count = "more" -> <<161 + n>> [] frame.count = "less" -> <<159 + n>> [] frame.count = "wide" -> <<184, n>>
              [] frame.count = "wider" -> <<185, 0, n>> [] frame.count = "widest" -> <<187, 0, 0, 0, 0, 0, 0, 0, n>> [] frame.count = "indefinite" -> <<191>>
              [] frame.count = "array" -> <<128 + n>> [] frame.count = "257" -> <<185, 1, 1>> [] OTHER -> <<160 + n>>
Cose == Count(Len(map)) \o Flatten([i \in 1..Len(map) |-> Menu[map[i]].b])
Data == LET all == Rp \o <<Flags>> \o Ctr \o Aaguid \o Said \o Cred \o Cose
                   \o (CASE frame.after = "byte" -> <<0>> [] frame.after = "map" -> <<160>> [] OTHER -> <<>>)
        IN CASE frame.cut = "all" -> <<>> [] frame.cut = "54" -> Take(all, 54) [] frame.cut = "55" -> Take(all, 55) [] frame.cut = "37" -> Take(all, 37)
             [] frame.cut = "last" -> Take(all, Len(all) - 1) [] OTHER -> all

(* ---- the account ---- *)
Put(a, e) == CASE e.slot = "ty" -> [a EXCEPT !.ty = e.v] [] e.slot = "al" -> [a EXCEPT !.al = e.v] [] e.slot = "param" -> [a EXCEPT !.param = e.v]
               [] e.slot = "x" -> [a EXCEPT !.x = e.v] [] e.slot = "y" -> [a EXCEPT !.y = e.v] [] OTHER -> a
Blank == [ty |-> I(FALSE, 0), al |-> I(FALSE, 0), param |-> <<>>, x |-> <<>>, y |-> <<>>]
Taken(n) == FoldLeft(LAMBDA a, k : Put(a, Menu[k]), Blank, SubSeq(map, 1, n))
Read == IF frame.count = "less" THEN Len(map) - 1 ELSE Len(map)
MapFine == /\ frame.count \notin {"more", "indefinite", "array", "257"}
           /\ \A i \in 1..Read : Menu[map[i]].ok
Fine == /\ frame.flags # "none"
        /\ frame.idlen \notin {"one over", "huge"}
        /\ frame.cut = "own" \/ (frame.cut = "last" /\ (frame.after = "byte" \/ frame.after = "map"))
                             \/ (frame.cut = "last" /\ frame.count = "less")
        /\ MapFine
\* a map cut short or counted long may happen to end on what follows
Unsure == \/ frame.count = "more" /\ frame.after # "own"
          \/ frame.count = "less" /\ map = <<>>

Starts == {<< >>, <<"ty2", "es256", "crv1", "x", "y">>, <<"ty1w", "eddsa", "crv6", "xw">>}
Init == map \in Starts /\ left = (IF map = << >> THEN Budget ELSE Budget - 1) /\ frame = Frame0 /\ res = <<>>
Enter == /\ res = <<>> /\ left > 0 /\ frame.n = 0 /\ \E k \in DOMAIN Menu : map' = Append(map, k)
         /\ left' = left - 1 /\ UNCHANGED <<frame, res>>
Deviate == /\ res = <<>> /\ left > 0
           /\ \E d \in DOMAIN Change : frame[d] = "own" /\ \E v \in Change[d] : frame' = [frame EXCEPT ![d] = v, !.n = @ + 1]
           /\ (frame'.count = "less" => map # <<>>)
           /\ left' = left - 1 /\ UNCHANGED <<map, res>>
Out(a) == IF ~a.ok THEN <<>>
          ELSE << [key |-> a.key, flags |-> a.flags, cred |-> a.cred, alt |-> IntText(a.al), tyt |-> IntText(a.ty), par |-> IF a.param = <<>> THEN <<>> ELSE << IntText(a.param[1]) >>,
                   ssh |-> LET k == AuthKey(a, A("ssh:")) IN IF k.ok THEN k.key.kt ELSE ""] >>
Parse == /\ res = <<>>
         /\ \E b \in {Data} : \E a \in {ParseAuth(b)} :
              /\ res' = << a >>
              /\ PrintT("SCEN " \o ToJson([b |-> b, out |-> Out(a)]))
         /\ UNCHANGED <<map, frame, left>>
Next == Enter \/ Deviate \/ Parse
Spec == Init /\ [][Next]_vars

(* ---- C18 ---- *)
Accepted == res # <<>> /\ ~Unsure => res[1].ok = Fine
Exact == res # <<>> /\ res[1].ok /\ ~Unsure =>
  LET a == res[1]  c == Taken(Read) IN
  /\ a.rp = Rp /\ a.aaguid = Aaguid /\ a.ctr = Ctr /\ a.flags = Flags /\ a.cred = Cred
  /\ a.ty = c.ty /\ a.al = c.al /\ a.param = c.param
  /\ a.key = (IF c.y = <<>> THEN Opt(c.x) ELSE <<4>> \o Opt(c.x) \o c.y[1])
=============================================================================
