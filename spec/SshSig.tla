------------------------------- MODULE SshSig -------------------------------
(* Detached signatures (PROTOCOL.sshsig).                                   *)
EXTENDS Cert

Magic == A("SSHSIG")
SigBegin == A("-----BEGIN SSH SIGNATURE-----")
SigEnd == A("-----END SSH SIGNATURE-----")

\* The bytes between two armor lines: the first line must be the begin line;
\* everything up to the first end line is base64; what follows is ignored.
Dearmor(t, begin, end) ==
  LET ls == Lines(t)
      ends == {i \in 2..Len(ls) : ls[i] = end}
      e == CHOOSE i \in ends : \A j \in ends : i <= j
  IN IF ls = <<>> \/ ls[1] # begin \/ ends = {} THEN [ok |-> FALSE, b |-> <<>>]
     ELSE B64Dec(Flatten(SubSeq(ls, 2, e - 1)))

SigHashes == {"sha256", "sha512"}
NoSig == [ok |-> FALSE]
ParseSigBlob(b) ==
  LET m == RdRaw(b, 0, 6)
      d == Decode(<<"u4", "b", "s", "s", "s", "b">>, b, 6)
  IN IF m.st # "ok" \/ m.v # Magic \/ d.st # "ok" THEN NoSig
     ELSE LET k == ParsePub(d.v[2]) IN
          IF /\ d.v[1] = <<0, 0, 0, 1>>
             /\ k.ok
             /\ d.v[3] # <<>>
             /\ d.v[5] \in {A(h) : h \in SigHashes}
          THEN [ok |-> TRUE, key |-> k.key, ns |-> d.v[3], sig |-> d.v[6],
                ha |-> CHOOSE h \in SigHashes : A(h) = d.v[5]]
          ELSE NoSig
ParseArmoredSig(t) ==
  LET d == Dearmor(t, SigBegin, SigEnd) IN IF d.ok THEN ParseSigBlob(d.b) ELSE NoSig

SigBlob(s) == Magic \o U32(1) \o WrBytes(EncodePubNamed(s.key)) \o WrBytes(s.ns)
              \o WrBytes(<<>>) \o WrBytes(A(s.ha)) \o WrBytes(s.sig)
Armor(b, begin, end, width) ==
  begin \o <<10>> \o Join(Chunks(B64(b), width), <<10>>) \o <<10>> \o end
ArmoredSig(s) == Armor(SigBlob(s), SigBegin, SigEnd, 76)

\* The bytes the key holder signs
SignedData(ns, ha, digest) ==
  Magic \o WrBytes(ns) \o WrBytes(<<>>) \o WrBytes(A(ha)) \o WrBytes(digest)

\* Does s verify for message msg under namespace ns (and expected key, if any)?
SigVerifies(s, msg, ns, expected, IsFact(_, _, _, _), HashOf(_, _)) ==
  LET h == HashOf(s.ha, msg) IN
  /\ s.ok
  /\ (expected # <<>> => expected[1] = s.key)
  /\ ns = s.ns
  /\ h # <<>>
  /\ VerifySig(s.key, s.sig, SignedData(ns, s.ha, h[1]), IsFact, HashOf)
=============================================================================
