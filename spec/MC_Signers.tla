----------------------------- MODULE MC_Signers -----------------------------
(* Allowed-signers lines, exhaustively: every line that is a sequence of up *)
(* to N pieces followed by one of the endings.  The line grows piece by     *)
(* piece; a closed line is a scenario for the real parser, with what the    *)
(* specification says about it.                                             *)
EXTENDS Allowed, Json

CONSTANT N

VARIABLES text, n, closed, p
vars == <<text, n, closed, p>>

\* a key of one byte: the shortest there is
KeyText == "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAAQE="
TheKey == [kt |-> "ssh-ed25519", p |-> <<<<1>>>>]
ASSUME ParsePubLine(A(KeyText)).ok /\ ParsePubLine(A(KeyText)).key = TheKey

Utc == <<<<0, 0, 0>>>>

Pieces == {"a", "b c", ",", " ", "\"", "#", "namespaces=", "cert-authority", "valid-after=20200101Z",
           "valid-before=20210101Z", " " \o KeyText}
Ends == {"", " " \o KeyText, "\" " \o KeyText, " " \o KeyText \o " x", " " \o KeyText \o "#x"}

Init == text = "" /\ n = 0 /\ closed = FALSE /\ p = <<>>
Add == /\ ~closed /\ n < N
       /\ \E q \in Pieces : text' = text \o q
       /\ n' = n + 1 /\ UNCHANGED <<closed, p>>
Close == /\ ~closed
         /\ \E e \in Ends : text' = text \o e
         /\ closed' = TRUE /\ UNCHANGED n
         /\ p' = ParseSignerLine(A(text'))
Next == Add \/ Close
Spec == Init /\ [][Next]_vars

(* ---- an independent account of quotes and comments: one pass over the    *)
(*      characters, remembering only whether inside quotes                  *)
Scan(t) ==
  FoldLeft(LAMBDA a, i :
             IF a.cut > 0 THEN a
             ELSE IF t[i] = Qu THEN [a EXCEPT !.q = ~@]
             ELSE IF t[i] = Hash /\ ~a.q THEN [a EXCEPT !.cut = i]
             ELSE a,
           [q |-> FALSE, cut |-> 0], [i \in 1..Len(t) |-> i])
NoComment(t) == LET c == Scan(t).cut IN IF c = 0 THEN t ELSE SubSeq(t, 1, c - 1)

\* the entry written out in full, everything quoted
Stamp(y) == y[1]
Printed(x) ==
  <<Qu>> \o Join(x.pr, <<Comma>>) \o <<Qu>>
  \o (IF x.ca THEN A(" cert-authority") ELSE <<>>)
  \o (IF x.ns = <<>> THEN <<>> ELSE A(" namespaces=") \o <<Qu>> \o Join(x.ns[1], <<Comma>>) \o <<Qu>>)
  \o (IF x.va = <<>> THEN <<>> ELSE A(" valid-after=") \o Stamp(x.va))
  \o (IF x.vb = <<>> THEN <<>> ELSE A(" valid-before=") \o Stamp(x.vb))
  \o <<Sp>> \o A(KeyText)

(* ---- what must hold of every entry (C12) ---- *)
\* an accepted line has balanced quotes and names at least one principal, none
\* empty, none with quotes or commas in it
WellFormed == closed /\ p.ok =>
  /\ ~Scan(A(text)).q
  /\ p.pr # <<>>
  /\ \A i \in 1..Len(p.pr) : p.pr[i] # <<>> /\ ~HasQu(p.pr[i]) /\ Find(p.pr[i], 1, {Comma}) > Len(p.pr[i])
  /\ p.key = TheKey
\* nothing after an unquoted # matters
CommentsIgnored == closed => LET a == p  b == ParseSignerLine(NoComment(A(text))) IN
  /\ a.ok = b.ok
  /\ a.ok => a = b
\* spaces around the line and doubled spaces between its parts do not matter
Spaced(t) == Flatten([i \in 1..Len(t) |-> IF t[i] = Sp /\ ~Scan(SubSeq(t, 1, i)).q /\ Scan(SubSeq(t, 1, i)).cut = 0
                                          THEN <<Sp, Sp>> ELSE <<t[i]>>])
SpacesIgnored == closed /\ p.ok => LET a == p  b == ParseSignerLine(<<Sp>> \o Spaced(A(text)) \o <<Sp>>) IN
  /\ a.ok => a = b
\* writing an accepted entry out and reading it again gives the same entry
RoundTrip == closed /\ p.ok /\ ~p.odd => LET q == ParseSignerLine(Printed(p)) IN q = p
\* no restriction is dropped: the options written are the options read
Word(w) == \E i \in 1..(Len(text) - Len(w) + 1) : SubSeq(text, i, i + Len(w) - 1) = w
NothingLost == closed /\ p.ok =>
  /\ (p.ca => Word("cert-authority"))
  /\ (p.ns # <<>> => Word("namespaces="))
  /\ (p.va # <<>> => Word("valid-after=")) /\ (p.vb # <<>> => Word("valid-before="))

Inst(x) == IF x = <<>> THEN <<>> ELSE <<CHOOSE i \in Readable(x[1], Utc) : TRUE>>
Outcome == IF p.odd THEN [t |-> text, st |-> "any"]
           ELSE IF ~p.ok \/ SignerMayFail(p, Utc) THEN [t |-> text, st |-> "err"]
           ELSE [t |-> text, st |-> "ok", pr |-> p.pr, ca |-> p.ca, ns |-> p.ns, va |-> Inst(p.va), vb |-> Inst(p.vb)]
Scenario == closed => PrintT("SCEN " \o ToJson(Outcome))
=============================================================================
