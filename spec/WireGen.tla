------------------------------ MODULE WireGen ------------------------------
(***************************************************************************)
(* A value of some type arrives byte by byte and is decoded at every       *)
(* point.  Checked: as long as a byte is missing the decoder asks for      *)
(* more; when the last one is there the value is back and exactly its      *)
(* bytes are used, whatever follows them.  Every (type, value, encoding)   *)
(* is printed, for the implementation to be put to the same test.          *)
(***************************************************************************)
EXTENDS Wire, Json, FiniteSets

CONSTANT Level    \* which family of types

Fix(n) == [k |-> "fix", n |-> n]
Vu(n) == [k |-> "vu", n |-> n]
Vi(n) == [k |-> "vi", n |-> n]
K(x) == [k |-> x]
Arr(t) == [k |-> "arr", of |-> t]
CArr(t) == [k |-> "carr", of |-> t]
Struct(f) == [k |-> "struct", f |-> f]
Tags(f) == [k |-> "tags", f |-> f]

\* interesting bytes
Corner == {0, 1, 63, 64, 127, 128, 129, 191, 192, 254, 255}
Few == {0, 1, 127, 128, 255}

\* numbers of n bytes: powers of two and their neighbours, of both signs, and a pattern
PowBits(w, i) == [j \in 1..w |-> IF j = w - i THEN 1 ELSE 0]
LowBits(w, i) == [j \in 1..w |-> IF j > w - i THEN 1 ELSE 0]
HighBits(w, i) == [j \in 1..w |-> IF j <= w - i THEN 1 ELSE 0]
Nums(n) ==
  { Bytes(PowBits(8 * n, i)) : i \in 0..(8 * n - 1) }
  \cup { Bytes(LowBits(8 * n, i)) : i \in 0..(8 * n) }
  \cup { Bytes(HighBits(8 * n, i)) : i \in 0..(8 * n) }
  \cup { [i \in 1..n |-> (37 * i + 11) % 256], [i \in 1..n |-> (16 * i) % 256] }

\* strings
Txt(n) == [i \in 1..n |-> 97 + (i % 26)]
Bin(n) == [i \in 1..n |-> (7 * i + 120) % 256]
Strs == { <<>>, <<0>>, <<255>>, Txt(2), Txt(3), Txt(62), Txt(63), Txt(64), Txt(65), Txt(127), Txt(128), Bin(200), Bin(256), Txt(300), <<195, 169>> }
FewStrs == { <<>>, <<0>>, Txt(3) }
Opt(S) == { <<>> } \cup { <<x>> : x \in S }

Small(t) ==
  CASE t.k = "fix" -> { Repeat(t.n, 0), Repeat(t.n, 255), [i \in 1..t.n |-> i] }
    [] t.k = "bool" -> { <<0>>, <<1>> }
    [] t.k \in {"vu", "vi"} -> { Repeat(t.n, 0), Nat2B(300, t.n), Repeat(t.n, 255) }
    [] t.k \in {"str", "cstr"} -> FewStrs
    [] OTHER -> Opt(FewStrs)

Basic == { K("bool"), Fix(1), Fix(2), Fix(4), Fix(8), Fix(16), Vu(4), Vi(4), Vu(8), Vi(8),
           K("str"), K("nstr"), K("cstr"), K("cnstr"), K("bytes"), K("cbytes") }
\* one of each kind
Thin == { Fix(2), K("bool"), Vi(4), Vu(8), K("str"), K("nstr"), K("cstr"), K("cnstr"), K("bytes"), K("cbytes") }

BasicVals(t) ==
  CASE t.k = "fix" -> IF t.n = 1 THEN { <<x>> : x \in 0..255 } ELSE Nums(t.n)
    [] t.k = "bool" -> { <<0>>, <<1>> }
    [] t.k \in {"vu", "vi"} -> Nums(t.n)
    [] t.k \in {"str", "cstr"} -> Strs
    [] OTHER -> Opt(Strs)

SeqsOf(S, n) == UNION { [1..m -> S] : m \in 0..n }
ArrVals(t, n) == Opt(SeqsOf(Small(t), n))

\* families of <<type, value>>
Cases ==
  CASE Level = "basic" -> UNION { { <<t, v>> : v \in BasicVals(t) } : t \in Basic }
    [] Level = "arrays" ->
         UNION { { <<c, v>> : c \in {Arr(t), CArr(t)}, v \in ArrVals(t, 2) } : t \in Basic }
         \cup { <<c, << Repeat(n, <<5, 6>>) >> >> : c \in {Arr(Fix(2)), CArr(Fix(2))}, n \in {3, 62, 63, 64, 127, 128, 200} }
    [] Level = "structs" ->
         UNION { { <<Struct(<<t, u>>), <<v, w>> >> : v \in Small(t), w \in Small(u) } : t \in Basic, u \in Basic }
    [] Level = "nested" ->
         UNION { { <<Struct(<<Fix(1), c, u>>), << <<9>>, v, w>> >> : c \in {Arr(Struct(<<t, u>>)), CArr(Struct(<<t, u>>))},
                        v \in Opt(SeqsOf({ <<x, y>> : x \in Small(t), y \in { CHOOSE z \in Small(u) : TRUE } }, 2)),
                        w \in { CHOOSE z \in Small(u) : TRUE } } : t \in Thin, u \in Thin }
         \cup UNION { { <<Arr(Struct(<<Arr(t), K("str")>>)), << << <<v, <<65>> >>, <<w, <<>> >> >> >> >>
                        : v \in ArrVals(t, 1), w \in ArrVals(t, 1) } : t \in Thin }
         \cup UNION { { <<Arr(Arr(t)), << <<v, w>> >> >> : v \in ArrVals(t, 1), w \in ArrVals(t, 1) } : t \in Thin }
    [] Level = "tags" ->
         LET id(n) == Nat2B(n, 4)
             T(a) == Tags(<< [id |-> 0, of |-> a], [id |-> 130, of |-> K("cnstr")] >>)
         IN UNION { { <<T(t), v>> :
                 v \in { <<>> }
                       \cup { << <<id(0), x>> >> : x \in Small(t) }
                       \cup { << <<id(n), s>> >> : n \in {1, 127, 128, 300, 70000}, s \in { <<>>, <<0>>, Bin(3), Bin(130) } }
                       \cup { << <<id(0), x>>, <<id(5), <<1, 2>> >>, <<id(130), y>> >> : x \in Small(t), y \in Opt(FewStrs) } }
                 : t \in Basic }

VARIABLES ty, val,  \* the case
          b,        \* its encoding
          fed       \* bytes that have arrived
vars == <<ty, val, b, fed>>

Init == /\ \E x \in Cases : ty = x[1] /\ val = x[2]
        /\ b = TLCEval(Enc(ty, val))
        /\ fed = 0
Arrive == fed < Len(b) /\ fed' = fed + 1 /\ UNCHANGED <<ty, val, b>>
Next == Arrive
Spec == Init /\ [][Next]_vars

Junk == { <<0>>, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>, <<128, 0>> }

\* a value is never taken to be there before its last byte is
NeverEarly == fed < Len(b) => Dec(ty, SubSeq(b, 1, fed), 1).st = "more"
\* and then it is the value
Back == fed = Len(b) =>
  /\ Dec(ty, b, 1) = Ok(val, Len(b) + 1)
  /\ \A j \in Junk : Dec(ty, b \o j, 1) = Ok(val, Len(b) + 1)
  /\ \A j \in Junk : Dec(ty, j \o b, Len(j) + 1) = Ok(val, Len(j) + Len(b) + 1)

Emit == fed = Len(b) => PrintT("VRF-GEN " \o ToJson([ty |-> ty, v |-> val, b |-> b]))
============================================================================
