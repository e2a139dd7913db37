------------------------------ MODULE Allowed ------------------------------
(* Allowed-signers lines and files (ssh-keygen(1), ALLOWED SIGNERS).        *)
EXTENDS Times

Sp == 32
Qu == 34
Hash == 35
Comma == 44
Eq == 61

\* first position >= i whose character is, is not, one of cs; or Len + 1
Find(t, i, cs) == LET n == SelectInSeq(Drop(t, i - 1), LAMBDA c : c \in cs) IN IF n = 0 THEN Len(t) + 1 ELSE i + n - 1
SkipSp(t, i) == LET n == SelectInSeq(Drop(t, i - 1), LAMBDA c : c # Sp) IN IF n = 0 THEN Len(t) + 1 ELSE i + n - 1
\* Next token from position i.  st: "none" at the end or at a comment, "bad"
\* for unbalanced quotes or text glued to a closing quote.
NextTok(t, i) ==
  LET s == SkipSp(t, i) IN
  IF s > Len(t) \/ t[s] = Hash THEN [st |-> "none", tok |-> <<>>, i |-> Len(t) + 1]
  ELSE LET j == Find(t, s, {Sp, Qu, Hash}) IN
       IF j > Len(t) \/ t[j] # Qu THEN [st |-> "ok", tok |-> SubSeq(t, s, j - 1), i |-> j]
       ELSE LET k == Find(t, j + 1, {Qu}) IN
            IF k > Len(t) \/ (k < Len(t) /\ t[k+1] \notin {Sp, Hash}) THEN [st |-> "bad", tok |-> <<>>, i |-> k]
            ELSE [st |-> "ok", tok |-> SubSeq(t, s, k), i |-> k + 1]
Tokens(t) ==
  LET r == Loop(Len(t) + 1, LAMBDA a : a.st = "ok",
                LAMBDA a : LET n == NextTok(t, a.i) IN
                           [st |-> n.st, i |-> n.i, v |-> IF n.st = "ok" THEN Append(a.v, n.tok) ELSE a.v],
                [st |-> "ok", i |-> 1, v |-> <<>>])
  IN [ok |-> r.st = "none", v |-> r.v]

IsQu(c) == c = Qu
Unquote(t) == StripR(StripL(t, IsQu), IsQu)
HasQu(t) == \E i \in 1..Len(t) : t[i] = Qu
Lower(t) == Strict([i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]])

OptNames == {A("cert-authority"), A("namespaces"), A("valid-after"), A("valid-before")}
OptKey(tok) == LET e == Find(tok, 1, {Eq}) IN Lower(SubSeq(tok, 1, e - 1))
OptVal(tok) == LET e == Find(tok, 1, {Eq}) IN Unquote(SubSeq(tok, e + 1, Len(tok)))
\* number of leading option tokens
RECURSIVE CountOpts(_, _)
CountOpts(toks, i) == IF i <= Len(toks) /\ OptKey(toks[i]) \in OptNames THEN 1 + CountOpts(toks, i + 1) ELSE 0

NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
Utf8All(ss) == Strict([i \in 1..Len(ss) |-> Utf8Enc(ss[i])])

\* A whitespace character other than a space inside a token makes the line's
\* meaning open (it is not a separator here, but it is one in a key line).
Odd(t) == \E i \in 1..Len(t) : IsWs(t[i]) /\ t[i] # Sp
\* a value given to the flag option is also left open
OddFlag(toks, n) == \E i \in 2..(n+1) : OptKey(toks[i]) = A("cert-authority") /\ \E j \in 1..Len(toks[i]) : toks[i][j] = Eq

\* Everything about a line except what its timestamps mean:
\* [ok, odd, pr, ca, ns, va, vb (texts), key]
ParseSignerLine(t) ==
  LET tk == Tokens(t)
      toks == tk.v
      n == IF Len(toks) >= 1 THEN CountOpts(toks, 2) ELSE 0
      pr == IF toks = <<>> THEN <<>> ELSE SplitOn(Unquote(toks[1]), Comma)
      Is(name) == {i \in 2..(n+1) : OptKey(toks[i]) = A(name)}
      Val(name) == LET s == Is(name) IN IF s = {} THEN <<>> ELSE <<OptVal(toks[CHOOSE i \in s : TRUE])>>
      key == ParsePubLine(toks[n+2] \o <<Sp>> \o toks[n+3])
      ok == /\ tk.ok
            /\ Len(toks) = n + 3
            /\ ~HasQu(Unquote(toks[1]))
            /\ \A i \in 1..Len(pr) : pr[i] # <<>>
            /\ \A i \in 2..(n+1) : ~HasQu(OptVal(toks[i]))
            /\ \A nm \in {"namespaces", "valid-after", "valid-before"} : Cardinality(Is(nm)) <= 1
            /\ key.ok
  IN [ok |-> ok, odd |-> (Len(toks) >= 1 /\ OddFlag(toks, n)) \/ \E i \in 2..Len(toks) : Odd(toks[i]),
      pr |-> Utf8All(pr), ca |-> IF ok THEN Is("cert-authority") # {} ELSE FALSE,
      ns |-> IF ok /\ Val("namespaces") # <<>> THEN <<Utf8All(NonEmpty(SplitOn(Val("namespaces")[1], Comma)))>> ELSE <<>>,
      va |-> IF ok THEN Val("valid-after") ELSE <<>>,
      vb |-> IF ok THEN Val("valid-before") ELSE <<>>,
      key |-> IF ok THEN key.key ELSE [kt |-> "", p |-> <<>>]]

\* st/out: the observed outcome for the line.  Time bounds: conflicting
\* bounds must be rejected.
TimesOk(x, zone) == (x = <<>> \/ Readable(x[1], zone) # {})
MayFailTimes(x, zone) == x # <<>> /\ MayReject(x[1], zone)
Conflict(p, zone) ==
  /\ p.va # <<>> /\ p.vb # <<>>
  /\ \E a \in Readable(p.va[1], zone), b \in Readable(p.vb[1], zone) : InstLeq(b, a)
OutTimeOk(x, out, zone) == IF x = <<>> THEN out = <<>>
                           ELSE Len(out) = 1 /\ TimeAllowed(x[1], zone, out[1])
SameKeyOut(key, out) == out.kt = key.kt /\ out.p = key.p /\ out.v = KtNamed(key.kt).fam
SignerMatches(p, o, zone) ==
  /\ p.ok
  /\ o.pr = p.pr /\ o.ca = p.ca /\ o.ns = p.ns
  /\ OutTimeOk(p.va, o.va, zone) /\ OutTimeOk(p.vb, o.vb, zone)
  /\ (o.va # <<>> /\ o.vb # <<>> => InstLess(o.va[1], o.vb[1]))
  /\ SameKeyOut(p.key, o.key)
SignerMayFail(p, zone) == ~p.ok \/ MayFailTimes(p.va, zone) \/ MayFailTimes(p.vb, zone) \/ Conflict(p, zone)
SignerLineConforms(t, zone, st, o) ==
  LET p == ParseSignerLine(t) IN
  \/ p.odd /\ st \in {"ok", "err"}
  \/ st = "ok" /\ SignerMatches(p, o, zone)
  \/ st = "err" /\ SignerMayFail(p, zone)

\* ---- files ----
IsEntry(line) == LET x == Trim(line) IN x # <<>> /\ x[1] # Hash
EntryLines(t) == LET ls == Lines(t) IN SelectSeq([i \in 1..Len(ls) |-> <<i - 1, Trim(ls[i])>>], LAMBDA x : IsEntry(x[2]))
\* st "ok" with out (sequence of entries) or "err" with the reported line number
SignerFileConforms(t, zone, st, line, out) ==
  LET es == EntryLines(t)
      ps == [i \in 1..Len(es) |-> ParseSignerLine(es[i][2])]
      odd == \E i \in 1..Len(es) : ps[i].odd
  IN \/ odd /\ st \in {"ok", "err"}
     \/ st = "ok" /\ Len(out) = Len(es) /\ \A i \in 1..Len(es) : SignerMatches(ps[i], out[i], zone)
     \/ /\ st = "err"
        /\ \E i \in 1..Len(es) :
             /\ line = es[i][1]
             /\ SignerMayFail(ps[i], zone)
             \* everything before it could be accepted
             /\ \A j \in 1..(i-1) : ps[j].ok /\ TimesOk(ps[j].va, zone) /\ TimesOk(ps[j].vb, zone)

\* ---- printing: the entry as text; times in UTC ----
\* the printed text must parse back to the same entry
PrintedConforms(text, o) ==
  LET p == ParseSignerLine(text) IN
  /\ p.ok
  /\ p.pr = o.pr /\ p.ca = o.ca /\ p.ns = o.ns
  /\ SameKeyOut(p.key, o.key)
  /\ (o.va = <<>> <=> p.va = <<>>) /\ (o.vb = <<>> <=> p.vb = <<>>)
  /\ (o.va # <<>> => Civil(p.va[1]).ok /\ Civil(p.va[1]).utc /\ Civil(p.va[1]).i = o.va[1])
  /\ (o.vb # <<>> => Civil(p.vb[1]).ok /\ Civil(p.vb[1]).utc /\ Civil(p.vb[1]).i = o.vb[1])
=============================================================================
