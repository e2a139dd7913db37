------------------------------ MODULE Builder ------------------------------
(* A certificate under construction: its content c (with the signature      *)
(* attached last), the exported bytes ser (empty before the first           *)
(* signature) and the comment cm (<<>> or <<text>>).                        *)
EXTENDS Cert

Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
PubOf(o) == [kt |-> o.kt, p |-> o.p]
BObj(c, ser, cm) == [c |-> c, ser |-> ser, cm |-> cm]
\* a builder call: field f set to v
SetField(b, f, v) ==
  CASE f = "serial" -> [b EXCEPT !.c.serial = v]
    [] f = "id"     -> [b EXCEPT !.c.id = v]
    [] f = "pr"     -> [b EXCEPT !.c.pr = Append(@, v)]
    [] f = "prs"    -> [b EXCEPT !.c.pr = v]
    [] f = "va"     -> [b EXCEPT !.c.va = v]
    [] f = "vb"     -> [b EXCEPT !.c.vb = v]
    [] f = "cr"     -> [b EXCEPT !.c.cr = SetOpt(@, v[1], v[2])]
    [] f = "crs"    -> [b EXCEPT !.c.cr = Pairs(v)]
    [] f = "ex"     -> [b EXCEPT !.c.ex = SetOpt(@, v[1], v[2])]
    [] f = "exs"    -> [b EXCEPT !.c.ex = Pairs(v)]
    [] f = "cm"     -> [b EXCEPT !.cm = <<v>>]
    [] f = "nonce"  -> [b EXCEPT !.c.nonce = v]
    [] f = "rs"     -> [b EXCEPT !.c.rs = v]
    [] f = "ct"     -> [b EXCEPT !.c.ct = v]
    [] f = "ca"     -> [b EXCEPT !.c.ca = PubOf(v)]
    [] f = "key"    -> [b EXCEPT !.c.key = PubOf(v)]
    [] OTHER        -> b
\* attaching sig to b
Fits(b, sig, IsFact(_, _, _, _), HashOf(_, _)) == VerifySig(b.c.ca, sig, EncodeTbs(b.c), IsFact, HashOf)
Attached(b, sig) == [b EXCEPT !.c.sig = sig, !.ser = EncodeTbs(b.c) \o WrBytes(sig)]
\* an accepted import, as an object to go on with
Loaded(imp, ser, cm) == BObj(imp.c, ser, cm)
\* the writer's calls by name
WrOf(k, v) ==
  CASE k = "cstring" -> WrCstring(v) [] k = "bytes" -> WrBytes(v) [] k = "string" -> WrBytes(v)
    [] k = "raw" -> v [] k = "u32" -> v [] k = "u64" -> v [] k = "mpint" -> WrMpint(v)
    [] k = "strings" -> WrStrings(v) [] k = "map" -> WrOptions(Pairs(v))
    [] k = "pubkey" -> WrBytes(EncodePubNamed(PubOf(v))) [] k = "pubdata" -> PubData(PubOf(v))
=============================================================================
