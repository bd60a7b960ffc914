------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* The wire format of values (encoder.go, decoder.go): for every type, the *)
(* bytes that encode a value (Enc) and what a decoder makes of the bytes   *)
(* it has so far (Dec).                                                    *)
(*                                                                         *)
(* Types are records with a field k:                                       *)
(*   fix n     n bytes, big-endian (integers, floats, UUIDs)               *)
(*   bool      one byte                                                    *)
(*   vu n, vi n   unsigned / zigzag variable-length integers of n bytes    *)
(*   str, nstr    string with a 16-bit length; nullable                    *)
(*   cstr, cnstr  compact string; nullable                                 *)
(*   bytes, cbytes   byte string with a 32-bit length / compact, nullable  *)
(*   arr, carr    array of a type with a 32-bit count / compact, nullable  *)
(*   struct       sequence of fields                                       *)
(*   tags         tagged fields; f lists the ids whose type is known       *)
(* Values: numbers are their bytes, most significant first, two's          *)
(* complement; strings are their bytes; a nullable value is <<>> for null  *)
(* and <<v>> for v; arrays and structures are sequences of values; tagged  *)
(* fields a sequence of <<id, value>> in ascending order of id.            *)
(* Compact lengths are zigzag variable-length integers of length + 1, 0    *)
(* for null.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

\* (TLCEval: TLC would otherwise evaluate the elements again at every use; halving: its sequences are copied)
RECURSIVE ConcatFrom(_, _, _)
ConcatFrom(ss, i, j) ==
  IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
  ELSE LET m == (i + j) \div 2 IN TLCEval(ConcatFrom(ss, i, m) \o ConcatFrom(ss, m + 1, j))
Concat(ss) == LET t == TLCEval(ss) IN ConcatFrom(t, 1, Len(t))
Repeat(n, v) == [i \in 1..n |-> v]

(************************ numbers ******************************************)
Pow2(n) == 2 ^ n
BitAt(b, i) == (b[((i - 1) \div 8) + 1] \div Pow2(7 - ((i - 1) % 8))) % 2
\* bits of a byte sequence, most significant first
Bits(b) == TLCEval([i \in 1..(8 * Len(b)) |-> BitAt(b, i)])
RECURSIVE Horner(_, _, _)
Horner(s, i, acc) == IF i > Len(s) THEN acc ELSE Horner(s, i + 1, 2 * acc + s[i])
Byte(s) == Horner(s, 1, 0)
Bytes(s) == TLCEval([i \in 1..(Len(s) \div 8) |-> Byte(SubSeq(s, 8 * i - 7, 8 * i))])

\* a natural number below 2^31 in n bytes, and back
Nat2B(v, n) == TLCEval([i \in 1..n |-> IF n - i > 3 THEN 0 ELSE (v \div Pow2(8 * (n - i))) % 256])
B2Nat(b) == FoldLeft(LAMBDA a, x : 256 * a + x, 0, b)
\* a signed number of at most 4 bytes
B2Int(b) == IF b[1] < 128 THEN B2Nat(b)
            ELSE FoldLeft(LAMBDA a, x : 256 * a + x, b[1] - 256, Tail(b))
MinusOne(n) == Repeat(n, 255)

(************************ variable-length numbers **************************)
\* position of the first bit that is set; 0 if none
RECURSIVE FirstOneFrom(_, _)
FirstOneFrom(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 1 THEN i ELSE FirstOneFrom(s, i + 1)
FirstOne(s) == FirstOneFrom(s, 1)
VarBits(s) ==
  LET w == Len(s)
      f == FirstOne(s)
      m == IF f = 0 THEN 1 ELSE w - f + 1          \* significant bits
      g == (m + 6) \div 7                          \* groups
      bit(i) == IF i < w THEN s[w - i] ELSE 0      \* i-th bit, least significant first, from 0
      grp(j) == bit(7*j) + 2 * bit(7*j+1) + 4 * bit(7*j+2) + 8 * bit(7*j+3)
                + 16 * bit(7*j+4) + 32 * bit(7*j+5) + 64 * bit(7*j+6)
  IN TLCEval([j \in 1..g |-> grp(j - 1) + (IF j < g THEN 128 ELSE 0)])

Zig(s) == TLCEval([i \in 1..Len(s) |-> IF i < Len(s) THEN (s[i + 1] + s[1]) % 2 ELSE s[1]])
Zag(s) == TLCEval([i \in 1..Len(s) |-> IF i = 1 THEN s[Len(s)] ELSE (s[i - 1] + s[Len(s)]) % 2])

VarEnc(b) == VarBits(Bits(b))
ZigEnc(b) == VarBits(Zig(Bits(b)))

(************************ encoding *****************************************)
CLen(n) == ZigEnc(Nat2B(n + 1, 4))
CNull == <<0>>

\* tagged fields of unknown type are raw bytes
TagIds(t) == { t.f[i].id : i \in DOMAIN t.f }
TagType(t, id) == IF id \in TagIds(t) THEN t.f[CHOOSE i \in DOMAIN t.f : t.f[i].id = id].of
                  ELSE [k |-> "raw"]

RECURSIVE Enc(_, _)
Enc(t, v) ==
  CASE t.k = "raw" -> v
    [] t.k \in {"fix", "bool"} -> v
    [] t.k = "vu" -> VarEnc(v)
    [] t.k = "vi" -> ZigEnc(v)
    [] t.k = "str" -> Nat2B(Len(v), 2) \o v
    [] t.k = "nstr" -> IF v = <<>> THEN MinusOne(2) ELSE Nat2B(Len(v[1]), 2) \o v[1]
    [] t.k = "cstr" -> CLen(Len(v)) \o v
    [] t.k \in {"cnstr", "cbytes"} -> IF v = <<>> THEN CNull ELSE CLen(Len(v[1])) \o v[1]
    [] t.k = "bytes" -> IF v = <<>> THEN MinusOne(4) ELSE Nat2B(Len(v[1]), 4) \o v[1]
    [] t.k = "arr" -> IF v = <<>> THEN MinusOne(4)
                      ELSE Nat2B(Len(v[1]), 4) \o Concat([i \in DOMAIN v[1] |-> Enc(t.of, v[1][i])])
    [] t.k = "carr" -> IF v = <<>> THEN CNull
                       ELSE CLen(Len(v[1])) \o Concat([i \in DOMAIN v[1] |-> Enc(t.of, v[1][i])])
    [] t.k = "struct" -> Concat([i \in DOMAIN t.f |-> Enc(t.f[i], v[i])])
    [] t.k = "tags" ->
         LET one(x) == LET e == Enc(TagType(t, B2Nat(x[1])), x[2])
                       IN VarEnc(x[1]) \o VarEnc(Nat2B(Len(e), 4)) \o e
         IN VarEnc(Nat2B(Len(v), 4)) \o Concat([i \in DOMAIN v |-> one(v[i])])

(************************ decoding *****************************************)
\* st: "ok" (v is the value, p the position after it), "more" or "bad"
Ok(v, p) == [st |-> "ok", v |-> v, p |-> p]
More == [st |-> "more", v |-> <<>>, p |-> 0]
Bad == [st |-> "bad", v |-> <<>>, p |-> 0]

Has(b, p, n) == p + n - 1 <= Len(b)
Cut(b, p, n) == SubSeq(b, p, p + n - 1)

\* first byte, from p on, without a continuation bit; 0 if there is none yet
RECURSIVE LastGroup(_, _)
LastGroup(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] < 128 THEN p ELSE LastGroup(b, p + 1)

DecVar(n, b, p) ==
  LET q == LastGroup(b, p)
      len == q - p + 1
      w == 8 * n
      \* i-th bit of the number, least significant first, from 0
      bit(i) == IF i \div 7 >= len THEN 0 ELSE (b[p + (i \div 7)] \div Pow2(i % 7)) % 2
      over == \E i \in w..(7 * len - 1) : bit(i) = 1
  IN IF q = 0 THEN More
     ELSE IF over THEN Bad
     ELSE Ok(Bytes(TLCEval([i \in 1..w |-> bit(w - i)])), q + 1)

DecZig(n, b, p) ==
  LET d == DecVar(n, b, p)
  IN IF d.st = "ok" THEN Ok(Bytes(Zag(Bits(d.v))), d.p) ELSE d

\* a length of a compact value: -1 for null
DecCLen(b, p) ==
  LET d == DecZig(4, b, p)
  IN IF d.st # "ok" THEN d ELSE IF B2Int(d.v) < 0 THEN Bad ELSE Ok(B2Int(d.v) - 1, d.p)

DecLen(n, b, p) ==
  IF ~Has(b, p, n) THEN More
  ELSE LET x == B2Int(Cut(b, p, n)) IN IF x < -1 THEN Bad ELSE Ok(x, p + n)

\* data of the length that d holds; nullable: null is a value
DecData(d, b, nullable) ==
  IF d.st # "ok" THEN d
  ELSE IF d.v = -1 THEN Ok(<<>>, d.p)              \* null, or an empty value
  ELSE IF ~Has(b, d.p, d.v) THEN More
  ELSE Ok(IF nullable THEN << Cut(b, d.p, d.v) >> ELSE Cut(b, d.p, d.v), d.p + d.v)

RECURSIVE Dec(_, _, _), DecSeq(_, _, _, _), DecFields(_, _, _, _, _), DecTags(_, _, _, _, _)

\* n elements from p on
DecSeq(n, t, b, p) ==
  IF n = 0 THEN Ok(<<>>, p)
  ELSE IF n = 1 THEN LET d == Dec(t, b, p) IN IF d.st # "ok" THEN d ELSE Ok(<<d.v>>, d.p)
  ELSE LET x == TLCEval(DecSeq(n \div 2, t, b, p))
       IN IF x.st # "ok" THEN x
          ELSE LET y == TLCEval(DecSeq(n - (n \div 2), t, b, x.p))
               IN IF y.st # "ok" THEN y ELSE Ok(TLCEval(x.v \o y.v), y.p)

DecFields(f, i, b, p, acc) ==
  IF i > Len(f) THEN Ok(acc, p)
  ELSE LET d == Dec(f[i], b, p) IN
       IF d.st # "ok" THEN d ELSE DecFields(f, i + 1, b, d.p, Append(acc, d.v))

DecTags(n, t, b, p, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET i == DecVar(4, b, p) IN
       IF i.st # "ok" THEN i
       ELSE LET z == DecVar(4, b, i.p) IN
            IF z.st # "ok" THEN z
            ELSE LET id == B2Nat(i.v)
                     len == B2Nat(z.v)
                     ty == TagType(t, id)
                 IN IF ty.k = "raw"
                      THEN IF ~Has(b, z.p, len) THEN More
                           ELSE DecTags(n - 1, t, b, z.p + len, Append(acc, <<i.v, Cut(b, z.p, len)>>))
                      ELSE LET d == Dec(ty, b, z.p) IN
                           IF d.st # "ok" THEN d
                           ELSE IF d.p # z.p + len THEN Bad
                           ELSE DecTags(n - 1, t, b, d.p, Append(acc, <<i.v, d.v>>))

Dec(t, b, p) ==
  CASE t.k \in {"fix", "bool"} -> LET n == IF t.k = "bool" THEN 1 ELSE t.n
                                  IN IF Has(b, p, n) THEN Ok(Cut(b, p, n), p + n) ELSE More
    [] t.k = "vu" -> DecVar(t.n, b, p)
    [] t.k = "vi" -> DecZig(t.n, b, p)
    [] t.k = "str" -> DecData(DecLen(2, b, p), b, FALSE)
    [] t.k = "nstr" -> DecData(DecLen(2, b, p), b, TRUE)
    [] t.k = "cstr" -> DecData(DecCLen(b, p), b, FALSE)
    [] t.k \in {"cnstr", "cbytes"} -> DecData(DecCLen(b, p), b, TRUE)
    [] t.k = "bytes" -> DecData(DecLen(4, b, p), b, TRUE)
    [] t.k \in {"arr", "carr"} ->
         LET d == IF t.k = "arr" THEN DecLen(4, b, p) ELSE DecCLen(b, p)
         IN IF d.st # "ok" THEN d
            ELSE IF d.v = -1 THEN Ok(<<>>, d.p)
            ELSE LET x == DecSeq(d.v, t.of, b, d.p) IN IF x.st # "ok" THEN x ELSE Ok(<<x.v>>, x.p)
    [] t.k = "struct" -> DecFields(t.f, 1, b, p, <<>>)
    [] t.k = "tags" -> LET n == DecVar(4, b, p)
                       IN IF n.st # "ok" THEN n ELSE DecTags(B2Nat(n.v), t, b, n.p, <<>>)
============================================================================
