------------------------------ MODULE Frames ------------------------------
(***************************************************************************)
(* The layout of every response (api name -> type of the body), of the     *)
(* frame around it, and of the messages in a Fetch response, CRC-32        *)
(* included.                                                               *)
(***************************************************************************)
EXTENDS Wire

Str == [k |-> "str"]
NStr == [k |-> "nstr"]
I8 == [k |-> "fix", n |-> 1]
I16 == [k |-> "fix", n |-> 2]
I32 == [k |-> "fix", n |-> 4]
I64 == [k |-> "fix", n |-> 8]
Boolean == [k |-> "bool"]
Blob == [k |-> "bytes"]
OptBlob == [k |-> "bytes", opt |-> TRUE]     \* may be null
Arr(t) == [k |-> "arr", of |-> t]
Struct(f) == [k |-> "struct", f |-> f]

\* fields in order, as the Kafka protocol guide has them
Body(api) ==
  CASE api = "meta" ->      \* Metadata v1
         Struct(<< Arr(Struct(<<I32 (* node *), Str (* host *), I32 (* port *), NStr (* rack *)>>)),
                   I32 (* controller *),
                   Arr(Struct(<<I16 (* error *), Str (* topic *), Boolean (* internal *),
                                Arr(Struct(<<I16 (* error *), I32 (* partition *), I32 (* leader *), Arr(I32) (* replicas *), Arr(I32) (* in sync *)>>))>>)) >>)
    [] api = "fetch" ->     \* Fetch v2
         Struct(<< I32 (* throttle time *),
                   Arr(Struct(<<Str (* topic *),
                                Arr(Struct(<<I32 (* partition *), I16 (* error *), I64 (* high watermark *), Blob (* messages *)>>))>>)) >>)
    [] api = "list" ->      \* ListOffsets v1
         Struct(<< Arr(Struct(<<Str, Arr(Struct(<<I32 (* partition *), I16 (* error *), I64 (* timestamp *), I64 (* offset *)>>))>>)) >>)
    [] api = "commit" ->    \* OffsetCommit v2
         Struct(<< Arr(Struct(<<Str, Arr(Struct(<<I32 (* partition *), I16 (* error *)>>))>>)) >>)
    [] api = "ofetch" ->    \* OffsetFetch v1
         Struct(<< Arr(Struct(<<Str, Arr(Struct(<<I32 (* partition *), I64 (* offset *), NStr (* metadata *), I16 (* error *)>>))>>)) >>)
    [] api = "coord" ->     \* FindCoordinator v0
         Struct(<< I16 (* error *), I32 (* node *), Str (* host *), I32 (* port *) >>)
    [] api = "join" ->      \* JoinGroup v1
         Struct(<< I16 (* error *), I32 (* generation *), Str (* protocol *), Str (* leader *), Str (* member *),
                   Arr(Struct(<<Str (* member *), Blob (* metadata *)>>)) >>)
    [] api \in {"beat", "leave"} -> Struct(<< I16 >>)     \* Heartbeat v0, LeaveGroup v0
    [] api = "sync" ->      \* SyncGroup v0
         Struct(<< I16 (* error *), Blob (* assignment *) >>)
    [] api = "apiv" ->      \* ApiVersions v0
         Struct(<< I16 (* error *), Arr(Struct(<<I16 (* api *), I16 (* min *), I16 (* max *)>>)) >>)

\* the assignment of the consumer protocol, in a SyncGroup response
Assignment == Struct(<< I16 (* version *), Arr(Struct(<<Str (* topic *), Arr(I32) (* partitions *)>>)), OptBlob (* user data *) >>)

\* what is null must be allowed to be; a boolean is 0 or 1
RECURSIVE Proper(_, _)
Proper(t, v) ==
  CASE t.k = "bytes" -> v # <<>> \/ "opt" \in DOMAIN t
    [] t.k = "bool" -> v \in {<<0>>, <<1>>}
    [] t.k = "arr" -> v # <<>> /\ \A i \in DOMAIN v[1] : Proper(t.of, v[1][i])
    [] t.k = "struct" -> \A i \in DOMAIN t.f : Proper(t.f[i], v[i])
    [] OTHER -> TRUE

\* b, from p to q, is a value of type t and nothing else, in the only encoding there is for it
Laid(t, b) == LET d == TLCEval(Dec(t, b, 1))
              IN d.st = "ok" /\ d.p = Len(b) + 1 /\ Proper(t, d.v) /\ Enc(t, d.v) = b

(************************ CRC-32 (IEEE 802.3) ******************************)
\* numbers of 32 bits are 4 bytes, most significant first
ByteBits(x) == [i \in 1..8 |-> (x \div Pow2(8 - i)) % 2]
Xor(x, y) == LET f == ByteBits(x)
                 g == ByteBits(y)
             IN ((f[1] + g[1]) % 2)*128 + ((f[2] + g[2]) % 2)*64 + ((f[3] + g[3]) % 2)*32 + ((f[4] + g[4]) % 2)*16
                + ((f[5] + g[5]) % 2)*8 + ((f[6] + g[6]) % 2)*4 + ((f[7] + g[7]) % 2)*2 + ((f[8] + g[8]) % 2)
XorTable == TLCEval([x \in 0..255 |-> TLCEval([y \in 0..255 |-> Xor(x, y)])])
Poly == << 237, 184, 131, 32 >>     \* EDB8 8320: the polynomial, reversed
Half(x) == << x[1] \div 2, (x[2] \div 2) + (x[1] % 2) * 128, (x[3] \div 2) + (x[2] % 2) * 128, (x[4] \div 2) + (x[3] % 2) * 128 >>
Xor32(x, y) == << XorTable[x[1]][y[1]], XorTable[x[2]][y[2]], XorTable[x[3]][y[3]], XorTable[x[4]][y[4]] >>
RECURSIVE Divide(_, _)
Divide(x, n) == IF n = 0 THEN x ELSE Divide(TLCEval(IF x[4] % 2 = 1 THEN Xor32(Half(x), Poly) ELSE Half(x)), n - 1)
CrcTable == TLCEval([i \in 0..255 |-> Divide(<<0, 0, 0, i>>, 8)])
CrcStep(c, x) == LET t == CrcTable[XorTable[c[4]][x]]
                 IN << t[1], XorTable[t[2]][c[1]], XorTable[t[3]][c[2]], XorTable[t[4]][c[3]] >>
Crc(b) == LET r == FoldLeft(CrcStep, <<255, 255, 255, 255>>, b) IN [i \in 1..4 |-> 255 - r[i]]

(************************ messages *****************************************)
\* after offset and size: checksum, magic byte, attributes, timestamp, key, value
Message == Struct(<< I32, I8, I8, I64, OptBlob, OptBlob >>)
\* an 8-byte number below 2^31
SmallNat(b) == \A i \in 1..4 : b[i] = 0 /\ b[5] < 128

\* the messages in b from p on; next: the offset the next one must have, -1: any
RECURSIVE Msgs(_, _, _)
Msgs(b, p, next) ==
  IF p = Len(b) + 1 THEN "ok"
  ELSE IF p + 11 > Len(b) THEN "the record area ends in the middle of a message header"
  ELSE LET off == Cut(b, p, 8)
           size == B2Int(Cut(b, p + 8, 4))
           q == p + 12
       IN IF size < 0 \/ size > Len(b) - q + 1 THEN "message size beyond the record area"
          ELSE LET m == TLCEval(Cut(b, q, size))
                   d == TLCEval(Dec(Message, m, 1))
               IN IF d.st # "ok" \/ d.p # size + 1 THEN "the size of a message is not the number of bytes after it"
                  ELSE IF Crc(SubSeq(m, 5, size)) # d.v[1] THEN "checksum"
                  ELSE IF d.v[2] # <<1>> THEN "magic byte"
                  ELSE IF d.v[3] # <<0>> THEN "attributes"
                  ELSE IF ~SmallNat(off) THEN "offset"
                  ELSE IF next >= 0 /\ B2Nat(SubSeq(off, 5, 8)) # next THEN "offsets do not follow each other"
                  ELSE Msgs(b, q + size, B2Nat(SubSeq(off, 5, 8)) + 1)

MessageSets(v) ==     \* of a Fetch response
  LET areas == Concat([i \in DOMAIN v[2][1] |-> [j \in DOMAIN v[2][1][i][2][1] |-> v[2][1][i][2][1][j][4][1]]])
      bad == { i \in DOMAIN areas : Msgs(areas[i], 1, -1) # "ok" }
  IN IF bad = {} THEN "ok" ELSE Msgs(areas[CHOOSE i \in bad : TRUE], 1, -1)

(************************ frames *******************************************)
\* raw: all bytes of a response; corr: the 4 bytes of the request's correlation id
Check(api, corr, raw) ==
  LET body == SubSeq(raw, 9, Len(raw))
  IN IF Len(raw) < 8 \/ SubSeq(raw, 1, 4) # Nat2B(Len(raw) - 4, 4) THEN "frame size"
     ELSE IF SubSeq(raw, 5, 8) # corr THEN "correlation id"
     ELSE IF ~Laid(Body(api), body) THEN "layout of the response"
     ELSE LET v == TLCEval(Dec(Body(api), body, 1)).v
          IN IF api = "fetch" THEN MessageSets(v)
             ELSE IF api = "sync" /\ ~Laid(Assignment, v[2][1]) THEN "layout of the assignment"
             ELSE "ok"
===========================================================================
