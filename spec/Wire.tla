-------------------------------- MODULE Wire --------------------------------
(* The SSH wire format (RFC 4251 section 5): what a reader returns at an    *)
(* offset and what a writer emits.                                          *)
EXTENDS Bytes

Huge == 2147483647
\* value of the big-endian u32 at 0-based offset o, saturated at Huge
U32At(b, o) == IF b[o+1] >= 128 THEN Huge
               ELSE ((b[o+1] * 256 + b[o+2]) * 256 + b[o+3]) * 256 + b[o+4]
U32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

\* Results: st = "ok" | "eof" (nothing left) | "bad"; v the value; o the new offset
Res(st, v, o) == [st |-> st, v |-> v, o |-> o]

RdFixed(b, o, n) ==
  IF o >= Len(b) THEN Res("eof", <<>>, o)
  ELSE IF Len(b) - o < n THEN Res("bad", <<>>, o)
  ELSE Res("ok", SubSeq(b, o + 1, o + n), o + n)

RdBytes(b, o) ==
  IF o >= Len(b) THEN Res("eof", <<>>, o)
  ELSE IF Len(b) - o < 4 THEN Res("bad", <<>>, o)
  ELSE LET n == U32At(b, o) IN
       IF Len(b) - o - 4 < n THEN Res("bad", <<>>, o)
       ELSE Res("ok", SubSeq(b, o + 5, o + 4 + n), o + 4 + n)

RdString(b, o) == LET r == RdBytes(b, o) IN
  IF r.st = "ok" /\ ~Utf8Valid(r.v) THEN Res("bad", <<>>, r.o) ELSE r

\* strict positive mpint: minimal, not negative; zero is the empty string
MpintOk(v) == \/ v = <<>>
              \/ v[1] \in 1..127
              \/ v[1] = 0 /\ Len(v) > 1 /\ v[2] >= 128
MpintVal(v) == IF v # <<>> /\ v[1] = 0 THEN Tail(v) ELSE v
RdMpint(b, o) == LET r == RdBytes(b, o) IN
  IF r.st # "ok" THEN r
  ELSE IF MpintOk(r.v) THEN Res("ok", MpintVal(r.v), r.o) ELSE Res("bad", <<>>, r.o)

\* raw bytes: an empty read at the very end is still an end of data
RdRaw(b, o, n) ==
  IF o >= Len(b) THEN Res("eof", <<>>, o)
  ELSE IF Len(b) - o < n THEN Res("eof", <<>>, o)
  ELSE Res("ok", SubSeq(b, o + 1, o + n), o + n)

RdCstring(b, o) ==
  LET n == SelectInSeq(Drop(b, o), LAMBDA c : c = 0) IN
  IF n = 0 THEN Res("eof", <<>>, o) ELSE Res("ok", SubSeq(b, o + 1, o + n - 1), o + n)

\* the reader's calls by name; n: how many raw bytes
RdOf(k, n, b, o) ==
  CASE k = "bytes" -> RdBytes(b, o) [] k = "string" -> RdString(b, o) [] k = "mpint" -> RdMpint(b, o)
    [] k = "u32" -> RdFixed(b, o, 4) [] k = "u64" -> RdFixed(b, o, 8)
    [] k = "raw" -> RdRaw(b, o, n)
    [] k = "cstring" -> LET r == RdCstring(b, o) IN [r EXCEPT !.v = Latin1ToUtf8(@)]

\* Decode a sequence of fields.  Field types: b bytes, s string, m mpint,
\* u4 / u8 big-endian integers (as bytes), r1 one raw byte.
RdField(ty, b, o) ==
  CASE ty = "b"  -> RdBytes(b, o)
    [] ty = "s"  -> RdString(b, o)
    [] ty = "m"  -> RdMpint(b, o)
    [] ty = "u4" -> RdFixed(b, o, 4)
    [] ty = "u8" -> RdFixed(b, o, 8)
    [] ty = "r1" -> RdRaw(b, o, 1)
Decode(schema, b, o) ==
  FoldLeft(LAMBDA a, ty :
             IF a.st # "ok" THEN a
             ELSE LET r == RdField(ty, b, a.o) IN
                  IF r.st = "ok" THEN Res("ok", Append(a.v, r.v), r.o) ELSE Res(r.st, a.v, r.o),
           Res("ok", <<>>, o), schema)

\* Decode groups of fields until the buffer is exactly used up
DecodeGroups(schema, b) ==
  Loop(Len(b) \div Len(schema) + 1, LAMBDA a : a.st = "ok" /\ a.o < Len(b),
       LAMBDA a : LET r == Decode(schema, b, a.o) IN
                  IF r.st = "ok" THEN Res("ok", Append(a.v, r.v), r.o) ELSE Res(r.st, a.v, a.o),
       Res("ok", <<>>, 0))
DecodeAll(schema, b) == LET r == DecodeGroups(schema, b) IN [ok |-> r.st = "ok", v |-> r.v]

(* ---- writing ---- *)
WrBytes(v) == U32(Len(v)) \o v
StripZeros(v) == StripL(v, LAMBDA c : c = 0)
WrMpint(v) == LET s == StripZeros(v) IN
              WrBytes(IF s # <<>> /\ s[1] >= 128 THEN <<0>> \o s ELSE s)
WrCstring(v) == v \o <<0>>
WrStrings(vs) == WrBytes(Flatten([i \in 1..Len(vs) |-> WrBytes(vs[i])]))
\* options: a set of <<name, value>>, names distinct, in lexical name order;
\* a flag (empty value) has empty data, other values are nested strings
OptData(v) == IF v = <<>> THEN WrBytes(<<>>) ELSE WrBytes(WrBytes(v))
OptSeq(opts) == SetToSortSeq(opts, LAMBDA x, y : LexLess(x[1], y[1], 1))
WrOptions(opts) == LET s == OptSeq(opts) IN
                   WrBytes(Flatten([i \in 1..Len(s) |-> WrBytes(s[i][1]) \o OptData(s[i][2])]))
=============================================================================
