----------------------------- MODULE MC_Pretty -----------------------------
(* The descriptive listing of a certificate.  Certificates differ from a    *)
(* plain one in up to Devs respects; the listing prints options in any      *)
(* order.  A listing is true of its certificate and of no other.            *)
EXTENDS Render, Memory, Json

CONSTANTS Devs, Near   \* listings with up to Near deviations are compared with other certificates

VARIABLES run,    \* the certificate, and how many fields differ
          text    \* <<>> or <<listing>>
vars == <<run, text>>

Types == {"ssh-rsa", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "ssh-ed25519",
          "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com"}
N0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
N1 == <<0, 0, 0, 0, 0, 0, 0, 1>>
NK == <<0, 0, 0, 0, 95, 200, 100, 10>>
NB == <<128, 0, 0, 0, 0, 0, 0, 0>>
NP == <<255, 255, 255, 255, 255, 255, 255, 254>>
NM == <<255, 255, 255, 255, 255, 255, 255, 255>>
Option(n, v) == <<A(n), A(v)>>
Values == [ kt  |-> {CertKtOf(KtNamed(p)).name : p \in Types},
            cak |-> Types \ {"ecdsa-sha2-nistp521"},
            key |-> {1, 2},
            ca  |-> {1, 2},
            ct  |-> {1, 2},
            id  |-> {A(""), A("x"), A("user@host"), A("a b"), A("say \"hi\"")},
            serial |-> {N0, N1, NK, NB, NM},
            va  |-> {N0, N1, NK, NM},
            vb  |-> {N0, NK, NB, NP, NM},
            pr  |-> {<<>>, <<A("a")>>, <<A("a"), A("b")>>, <<A("b"), A("a")>>, <<A("a"), A("a")>>, <<A("")>>, <<A("a"), A("b"), A("c")>>,
                     <<A("Extensions: (none)")>>},
            cr  |-> {{}, {Option("force-command", "ls")}, {Option("force-command", "ls -l")}, {Option("x", "")}, {Option("x", "1"), Option("y", "2")},
                     {Option("x", "2"), Option("y", "1")}, {Option("a", "1"), Option("b", "1"), Option("c", "")}},
            ex  |-> {{}, {Option("permit-pty", "")}, {Option("permit-pty", "v")}, {Option("permit-pty", ""), Option("permit-user-rc", "")},
                     {Option("permit-user-rc", "")}, {Option("a", ""), Option("b", ""), Option("ab", "")}} ]
Base == [n |-> 0, kt |-> "ssh-ed25519-cert-v01@openssh.com", cak |-> "ssh-ed25519", key |-> 1, ca |-> 1, ct |-> 1, id |-> A("x"),
         serial |-> N1, va |-> N0, vb |-> NM, pr |-> <<A("a")>>, cr |-> {}, ex |-> {Option("permit-pty", "")}]
\* perfect, symbolic digests of the two keys
DigestOf(who, k, t) == [i \in 1..32 |-> (Len(t) * 5 + k * 3 + who) % 256]
Fk(c) == DigestOf(100, c.key, c.kt)
Fc(c) == DigestOf(150, c.ca, c.cak)
AsCert(c) == [kt |-> c.kt, ct |-> IF c.ct = 1 THEN User ELSE Host, ca |-> [kt |-> c.cak], id |-> c.id, serial |-> c.serial,
              va |-> c.va, vb |-> c.vb, pr |-> c.pr, cr |-> c.cr, ex |-> c.ex]
TrueOf(c, t) == PrettyOk(AsCert(c), Fk(c), Fc(c), t)
\* the orders in which a set can be listed
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
CritLines(q) == Flatten([i \in 1..Len(q) |-> Tab \o q[i][1] \o <<32>> \o q[i][2] \o Nl])
ExtLines(q) == Flatten([i \in 1..Len(q) |-> Tab \o q[i][1] \o Nl])
Listing(c, qc, qe) == PrettyHead(AsCert(c), Fk(c), Fc(c)) \o CritTitle(c) \o CritLines(qc) \o ExtTitle(c) \o ExtLines(qe)

Init == run = Base /\ text = <<>>
Deviate == /\ run.n < Devs /\ text = <<>>
           /\ \E f \in DOMAIN Values :
                /\ run[f] = Base[f]
                /\ \E v \in Values[f] \ {Base[f]} : run' = [run EXCEPT ![f] = v, !.n = @ + 1]
           /\ UNCHANGED text
List == /\ text = <<>>
         /\ \E qc \in Orders(run.cr), qe \in Orders(run.ex) : text' = <<Listing(run, qc, qe)>>
         /\ UNCHANGED run
Next == Deviate \/ List
Spec == Init /\ [][Next]_vars

(* ---- C27 ---- *)
Others(c) == UNION {{[c EXCEPT ![f] = v] : v \in Values[f] \ {c[f]}} : f \in DOMAIN Values}
\* extensions are listed by name
ByName(S) == {o[1] : o \in S}
Shows(c, d) == \/ c.ex # d.ex /\ ByName(c.ex) = ByName(d.ex)
TellsTheTruth == text # <<>> => TrueOf(run, text[1])
TellsApart == text # <<>> /\ run.n <= Near => \A c \in Others(run) : TrueOf(c, text[1]) => Shows(c, run)
Forever == text # <<>> => (Occurs(A("Valid: forever"), text[1]) <=> (run.va = N0 /\ run.vb = NM))
Scenario == text = <<>> => PrintT("SCEN " \o ToJson(run))
=============================================================================
