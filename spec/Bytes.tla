------------------------------- MODULE Bytes -------------------------------
(* Byte strings, text and their encodings.  A byte string is a sequence of *)
(* 0..255, text a sequence of Unicode code points.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL OrdF == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
                 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]
\* TLC keeps a function as its definition and evaluates it again at every
\* application; this makes it a plain sequence of values once and for all
Strict(f) == SubSeq(f, 1, Len(f))
\* the ASCII codes of a TLA+ string
A(str) == Strict([i \in 1..Len(str) |-> OrdF[SubSeq(str, i, i)]])

\* Do again and again, at most n times, as long as More: a recursive operator
\* would evaluate its arguments anew at every depth
Loop(n, More(_), Do(_), a0) == FoldLeft(LAMBDA a, i : IF More(a) THEN Do(a) ELSE a, a0, Strict([i \in 1..n |-> i]))

Byte == 0..255
Zeros(n) == Strict([i \in 1..n |-> 0])
\* concatenation, by halves
RECURSIVE FlattenIn(_, _, _)
FlattenIn(ss, lo, hi) ==
  IF hi - lo < 8 THEN FoldLeft(LAMBDA x, y : x \o y, <<>>, SubSeq(ss, lo, hi))
  ELSE LET m == (lo + hi) \div 2 IN FlattenIn(ss, lo, m) \o FlattenIn(ss, m + 1, hi)
Flatten(ss) == LET t == Strict(ss) IN FlattenIn(t, 1, Len(t))
Drop(b, n) == SubSeq(b, n + 1, Len(b))
Take(b, n) == SubSeq(b, 1, n)

\* lexicographic order on byte strings
RECURSIVE LexLess(_, _, _)
LexLess(x, y, i) ==
  IF i > Len(y) THEN FALSE
  ELSE IF i > Len(x) THEN TRUE
  ELSE IF x[i] # y[i] THEN x[i] < y[i]
  ELSE LexLess(x, y, i + 1)

(* ---- apply a list of edits <<pos, del, ins>> (0-based position in the    *)
(*      already edited string) to a byte string                             *)
Edit(b, ed) == SubSeq(b, 1, ed[1]) \o ed[3] \o SubSeq(b, ed[1] + ed[2] + 1, Len(b))
Edits(b, eds) == FoldLeft(LAMBDA x, e : Edit(x, e), b, eds)

(* ---- UTF-8 (well-formed byte sequences, Unicode table 3-7) ---- *)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
\* how many bytes the character begun by byte c takes; 0 if none begins so
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3
              ELSE IF c \in 240..244 THEN 4 ELSE 0
\* every lead byte is followed by its continuation bytes, the first of them
\* in range, and every continuation byte belongs to a lead byte before it
Utf8At(b, i) ==
  LET c == b[i] IN
  IF c < 128 THEN TRUE
  ELSE IF c \in 128..191 THEN
       \/ i > 1 /\ Utf8Len(b[i-1]) > 1
       \/ i > 2 /\ Cont(b, i-1) /\ Utf8Len(b[i-2]) > 2
       \/ i > 3 /\ Cont(b, i-1) /\ Cont(b, i-2) /\ Utf8Len(b[i-3]) > 3
  ELSE /\ Utf8Len(c) > 1
       /\ \A j \in 1..(Utf8Len(c) - 1) : Cont(b, i + j)
       /\ (c = 224 => b[i+1] >= 160) /\ (c = 237 => b[i+1] <= 159)
       /\ (c = 240 => b[i+1] >= 144) /\ (c = 244 => b[i+1] <= 143)
\* (x is b, evaluated once)
Utf8Valid(b) == \A x \in {b} : \A i \in 1..Len(x) : Utf8At(x, i)
Utf8Cp(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Enc(cps) == IF \A i \in 1..Len(cps) : cps[i] < 128 THEN cps
                ELSE Flatten([i \in 1..Len(cps) |-> Utf8Cp(cps[i])])
\* each byte read as the code point of the same number (Latin-1), in UTF-8
Latin1ToUtf8(b) == Utf8Enc(b)

(* ---- base64, standard alphabet ---- *)
LOCAL Alpha == A("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
LOCAL DecTab == [c \in 0..127 |-> IF \E i \in 1..64 : Alpha[i] = c
                                  THEN (CHOOSE i \in 1..64 : Alpha[i] = c) - 1 ELSE -1]
LOCAL Sextet(c) == IF c <= 127 THEN DecTab[c] ELSE -1
B64NoPad(b) ==
  LET n == Len(b)
      nc == (n * 4 + 2) \div 3
      At(i) == IF i <= n THEN b[i] ELSE 0
      Ch(k) == LET g == ((k - 1) \div 4) * 3  r == (k - 1) % 4 IN
               CASE r = 0 -> At(g+1) \div 4
                 [] r = 1 -> (At(g+1) % 4) * 16 + (At(g+2) \div 16)
                 [] r = 2 -> (At(g+2) % 16) * 4 + (At(g+3) \div 64)
                 [] OTHER -> At(g+3) % 64
  IN Strict([k \in 1..nc |-> Alpha[Ch(k) + 1]])
B64(b) == LET x == B64NoPad(b) IN
          IF Len(b) % 3 = 1 THEN x \o <<61, 61>> ELSE IF Len(b) % 3 = 2 THEN x \o <<61>> ELSE x
\* [ok, b]: decoding.  Padding may be absent or partial, but where present it
\* must be a suffix at a legal place; left-over bits must be zero.
B64Dec(t) ==
  LET n == Len(t)
      pads == {i \in 1..n : t[i] = 61}
      d == IF pads = {} THEN n ELSE (CHOOSE i \in pads : \A j \in pads : i <= j) - 1
      v == Strict([i \in 1..d |-> Sextet(t[i])])
      nb == (d * 3) \div 4
      Bt(k) == LET g == ((k - 1) \div 3) * 4  r == (k - 1) % 3 IN
               CASE r = 0 -> v[g+1] * 4 + (v[g+2] \div 16)
                 [] r = 1 -> (v[g+2] % 16) * 16 + (v[g+3] \div 4)
                 [] OTHER -> (v[g+3] % 4) * 64 + v[g+4]
      ok == /\ n % 4 # 1
            /\ \A i \in (d+1)..n : t[i] = 61 /\ (i - 1) % 4 >= 2
            /\ d % 4 # 1
            /\ \A i \in 1..d : v[i] >= 0
            /\ (d % 4 = 2 => v[d] % 16 = 0)
            /\ (d % 4 = 3 => v[d] % 4 = 0)
  IN IF ok THEN [ok |-> TRUE, b |-> Strict([k \in 1..nb |-> Bt(k)])] ELSE [ok |-> FALSE, b |-> <<>>]

(* ---- text ---- *)
\* Unicode White_Space
IsWs(c) == c \in {9,10,11,12,13,32,133,160,5760,8232,8233,8239,8287,12288} \/ c \in 8192..8202
\* maximal runs of non-whitespace
SplitWs(t) ==
  LET n == Len(t)
      W(i) == i < 1 \/ i > n \/ IsWs(t[i])
      from == SetToSortSeq({i \in 1..n : ~W(i) /\ W(i - 1)}, <)
      to == SetToSortSeq({i \in 1..n : ~W(i) /\ W(i + 1)}, <)
  IN Strict([k \in 1..Len(from) |-> SubSeq(t, from[k], to[k])])
\* split at every occurrence of a code point (n occurrences give n + 1 parts)
SplitOn(t, ch) ==
  LET at == SetToSortSeq({i \in 1..Len(t) : t[i] = ch}, <)
      n == Len(at)
  IN Strict([k \in 1..(n + 1) |-> SubSeq(t, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k > n THEN Len(t) ELSE at[k] - 1)])
\* lines ended by LF or CRLF; a final line ending does not start a new line
Lines(t) ==
  LET parts == SplitOn(t, 10)
      keep == IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts) - 1) ELSE parts
      n == Len(parts)
      StripCr(x) == IF x # <<>> /\ x[Len(x)] = 13 THEN SubSeq(x, 1, Len(x) - 1) ELSE x
      \* a trailing CR is only part of a line ending when a LF follows it
  IN Strict([i \in 1..Len(keep) |-> IF i < n THEN StripCr(keep[i]) ELSE keep[i]])
\* without the elements of cs at its start, at its end
StripL(t, Cs(_)) == LET i == SelectInSeq(t, LAMBDA c : ~Cs(c)) IN IF i = 0 THEN <<>> ELSE SubSeq(t, i, Len(t))
StripR(t, Cs(_)) == SubSeq(t, 1, SelectLastInSeq(t, LAMBDA c : ~Cs(c)))
TrimStart(t) == StripL(t, IsWs)
TrimEnd(t) == StripR(t, IsWs)
Trim(t) == TrimEnd(TrimStart(t))
Join(parts, sep) == IF parts = <<>> THEN <<>>
                    ELSE Flatten([i \in 1..Len(parts) |-> IF i = 1 THEN parts[i] ELSE sep \o parts[i]])
\* break into pieces of n
Chunks(t, n) == Strict([i \in 1..((Len(t) + n - 1) \div n) |-> SubSeq(t, (i-1)*n + 1, IF i*n < Len(t) THEN i*n ELSE Len(t))])

(* ---- decimal rendering of a big-endian byte string ---- *)
RECURSIVE DivBytes(_, _, _, _)   \* long division by 10: quotient digits base 256, remainder
DivBytes(b, i, rem, q) == IF i > Len(b) THEN [q |-> q, r |-> rem]
                          ELSE LET x == rem * 256 + b[i] IN DivBytes(b, i + 1, x % 10, Append(q, x \div 10))
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0
RECURSIVE DecDigits(_, _)
DecDigits(b, acc) == IF AllZero(b) THEN acc
                     ELSE LET d == DivBytes(b, 1, 0, <<>>) IN DecDigits(d.q, <<48 + d.r>> \o acc)
Decimal(b) == IF AllZero(b) THEN <<48>> ELSE DecDigits(b, <<>>)
RECURSIVE NatDigits(_, _)
NatDigits(n, acc) == IF n = 0 THEN acc ELSE NatDigits(n \div 10, <<48 + (n % 10)>> \o acc)
DecNat(n) == IF n = 0 THEN <<48>> ELSE NatDigits(n, <<>>)
\* the bit of weight w
Bit(x, w) == (x \div w) % 2 = 1
=============================================================================
