------------------------------ MODULE MC_File ------------------------------
(* Allowed-signers files, exhaustively: every file of up to N lines from a  *)
(* palette of good, bad, blank and comment lines, with either line ending   *)
(* and with or without one at the end.  The model reads a file line by line *)
(* as a loader would; the invariants compare what it has gathered with the  *)
(* file as a whole.                                                         *)
EXTENDS Allowed, Json

CONSTANT N
VARIABLES file, pos, out, bad, phase
vars == <<file, pos, out, bad, phase>>

Key == "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAAQE="
\* the palette: name, text, and by construction what the line is
Good == <<"a " \o Key, "b,c cert-authority " \o Key, "  a " \o Key \o "  # x", "d namespaces=\"#,e\" " \o Key, "a " \o Key \o " ">>
Bad == <<"a", Key, "a " \o Key \o " y", "a junk= " \o Key, "\"a " \o Key, "a namespaces=x namespaces=y " \o Key, "x", "// a " \o Key,
         "a valid-after=20210101Z,valid-before=20200101Z " \o Key, "; a " \o Key>>
Quiet == <<"", "   ", "# " \o Key, "  #", "#", "#\"">>
Palette == {<<"g", i>> : i \in 1..Len(Good)} \cup {<<"b", i>> : i \in 1..Len(Bad)} \cup {<<"q", i>> : i \in 1..Len(Quiet)}
TextOf(x) == CASE x[1] = "g" -> Good[x[2]] [] x[1] = "b" -> Bad[x[2]] [] OTHER -> Quiet[x[2]]
GoodParsed == [i \in 1..Len(Good) |-> ParseSignerLine(Trim(A(Good[i])))]
ASSUME \A i \in 1..Len(Good) : GoodParsed[i].ok /\ ~GoodParsed[i].odd
ASSUME \A i \in 1..Len(Bad) : LET p == ParseSignerLine(Trim(A(Bad[i]))) IN ~p.odd /\ SignerMayFail(p, <<<<0, 0, 0>>>>)
ASSUME \A i \in 1..Len(Quiet) : ~IsEntry(A(Quiet[i]))

\* files: the first line from the whole palette, later ones too up to N
Init == /\ \E n \in 0..N : file \in [1..n -> Palette]
        /\ pos = 0 /\ out = <<>> /\ bad = -1 /\ phase = "read"
Read == /\ phase = "read" /\ pos < Len(file) /\ bad = -1
        /\ LET x == file[pos + 1] IN
           /\ out' = IF x[1] = "g" THEN Append(out, x[2]) ELSE out
           /\ bad' = IF x[1] = "b" THEN pos ELSE -1
        /\ pos' = pos + 1 /\ UNCHANGED <<file, phase>>
Done == /\ phase = "read" /\ (pos = Len(file) \/ bad # -1)
        /\ phase' = "done" /\ UNCHANGED <<file, pos, out, bad>>
Next == Read \/ Done
Spec == Init /\ [][Next]_vars

\* C13: all entries in order, or the first bad line; nothing beyond it is read
AllOrError == phase = "done" =>
  LET bads == {i \in 1..Len(file) : file[i][1] = "b"}
      goods == SelectSeq(file, LAMBDA x : x[1] = "g")
  IN IF bads = {} THEN bad = -1 /\ out = [i \in 1..Len(goods) |-> goods[i][2]]
     ELSE /\ bad + 1 \in bads /\ \A i \in bads : bad + 1 <= i
\* an entry never stems from a line after a bad one
NoneAfterBad == Len(out) <= Cardinality({i \in 1..pos : file[i][1] = "g"})
\* the specification of whole files agrees with reading line by line
Text(nl) == Flatten([i \in 1..Len(file) |-> A(TextOf(file[i])) \o nl])
AgreesWithSpec == phase = "done" =>
  LET t == Text(<<13, 10>>)
      es == EntryLines(t)
  IN /\ Len(es) = Cardinality({i \in 1..Len(file) : file[i][1] # "q"})
     /\ \A j \in 1..Len(es) : LET i == es[j][1] + 1 IN file[i][1] # "q" /\ es[j][2] = Trim(A(TextOf(file[i])))

Ending == (Len(file) + Cardinality({file[i][2] : i \in 1..Len(file)})) % 3
Scenario == phase = "done" =>
  PrintT("SCEN " \o ToJson([l |-> [i \in 1..Len(file) |-> TextOf(file[i])], bad |-> bad,
                            n |-> Len(out), e |-> [j \in 1..Len(out) |-> GoodParsed[out[j]].pr]]))
=============================================================================
