------------------------------ MODULE Store ------------------------------
(***************************************************************************)
(* The data plane of the mock broker: topics, partition logs and committed *)
(* group offsets, the atomic steps that change them (one operator per      *)
(* critical section of the implementation: datastore.go, offset_commit.go, *)
(* kafka-mock.go) and, for every request that reads them, what an answer   *)
(* about ONE partition (or one topic) must be at the instant it is read    *)
(* (fetch.go, list_offsets.go, offset_fetch.go, metadata.go,               *)
(* sync_group.go).  Everything is a pure operator over a store record      *)
(*   s = [topics : set of topic names,                                     *)
(*        log    : <<topic, partition>> -> sequence of records,            *)
(*        comm   : <<group, topic, partition>> -> committed offset]        *)
(* so that the design model (Server), the behaviour generators (GenData)   *)
(* and the trace acceptor (Trace) share one definition.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NullLen == -1                  \* length of a null key or value
Overhead == 34                 \* offset 8, size 4, crc 4, magic 1, attributes 1, timestamp 8, two lengths of 4

Pos(n) == IF n > 0 THEN n ELSE 0
WireSize(kl, vl) == Overhead + Pos(kl) + Pos(vl)

Rec(id, size, ts) == [id |-> id, size |-> size, ts |-> ts]

EmptyStore == [topics |-> {}, log |-> <<>>, comm |-> <<>>]

HasTopic(s, t)   == t \in s.topics
HasPart(s, t, q) == <<t, q>> \in DOMAIN s.log
Log(s, t, q)     == s.log[<<t, q>>]
End(s, t, q)     == Len(s.log[<<t, q>>])
PartsOf(s, t)    == { k[2] : k \in { x \in DOMAIN s.log : x[1] = t } }
Committed(s, g, t, q) ==
  IF <<g, t, q>> \in DOMAIN s.comm THEN s.comm[<<g, t, q>>] ELSE 0

(************************ steps ********************************************)
\* createTopic, createPartition, postRecord: three separate critical sections of a post
MkTopic(s, t) == IF t \in s.topics THEN s ELSE [s EXCEPT !.topics = @ \cup {t}]
MkPart(s, t, q) ==
  IF HasPart(s, t, q) THEN s ELSE [s EXCEPT !.log = (<<t, q>> :> <<>>) @@ @]
AppendRec(s, t, q, r) == [s EXCEPT !.log[<<t, q>>] = Append(@, r)]

\* one partition of an OffsetCommit: compare and raise, under the partition's lock
CommitMax(s, g, t, q, o) ==
  IF HasPart(s, t, q) /\ o > Committed(s, g, t, q)
    THEN [s EXCEPT !.comm = (<<g, t, q>> :> o) @@ @]
    ELSE s
\* SetConsumerGroupOffset
SetOff(s, g, t, q, o) ==
  IF HasPart(s, t, q) THEN [s EXCEPT !.comm = (<<g, t, q>> :> o) @@ @] ELSE s

(************************ answers ******************************************)
\* number of records, from the i-th of log L on, that fit into room bytes
RECURSIVE RunLen(_, _, _)
RunLen(L, i, room) ==
  IF i > Len(L) THEN 0
  ELSE IF L[i].size > room THEN 0
  ELSE 1 + RunLen(L, i + 1, room - L[i].size)

ErrNone == 0
ErrRange == 1
ErrUnknown == 3

\* What a fetch has for partition <<t,q>> from offset off within max bytes:
\* the error, the records (with their offsets), whether a record is there at
\* all (then the fetch is not held, even if the record does not fit).
FetchAns(s, t, q, off, max) ==
  IF ~HasPart(s, t, q) THEN [err |-> ErrNone, n |-> 0, there |-> FALSE, known |-> FALSE]
  ELSE IF off < 0 THEN [err |-> ErrRange, n |-> 0, there |-> TRUE, known |-> TRUE]
  ELSE LET L == Log(s, t, q)
       IN [err |-> ErrNone, n |-> RunLen(L, off + 1, max), there |-> off < Len(L), known |-> TRUE]

\* a = [err, hw, recs] answers the target at this instant
FetchMatches(s, t, q, off, max, a) ==
  LET w == FetchAns(s, t, q, off, max) IN
  IF ~w.known THEN a.recs = <<>> /\ a.err \in {ErrNone, ErrUnknown}
  ELSE /\ a.err = w.err
       /\ Len(a.recs) = w.n
       /\ \A i \in 1..w.n : LET r == Log(s, t, q)[off + i] IN
             a.recs[i].off = off + i - 1 /\ a.recs[i].id = r.id /\ a.recs[i].ts = r.ts
       /\ (off >= 0 => a.hw >= off + w.n \/ off > End(s, t, q))
       /\ (off >= 0 /\ off <= End(s, t, q)) => a.hw <= End(s, t, q)

\* ListOffsets: kind "latest", "earliest" or "at" (a timestamp)
FirstAt(L, ts) ==
  LET c == { i \in 1..Len(L) : L[i].ts >= ts }
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

ListMatches(s, t, q, kind, ts, a) ==
  IF ~HasPart(s, t, q) THEN a.err = ErrUnknown
  ELSE LET L == Log(s, t, q) IN
    /\ a.err = ErrNone
    /\ CASE kind = "latest"   -> a.off = Len(L)
         [] kind = "earliest" -> a.off = 0
         [] OTHER -> LET i == FirstAt(L, ts) IN
              IF i = 0 THEN a.off = Len(L) ELSE a.off = i - 1 /\ a.ts = L[i].ts

OFetchMatches(s, g, t, q, a) ==
  HasPart(s, t, q) /\ a.err = ErrNone /\ a.off = Committed(s, g, t, q)

\* a topic of a Metadata answer lists the partitions qs
NoDup(q) == Cardinality({ q[i] : i \in DOMAIN q }) = Len(q)
MetaMatches(s, t, qs) ==
  HasTopic(s, t) => /\ NoDup(qs)
                    /\ { qs[i] : i \in DOMAIN qs } = PartsOf(s, t)
SyncMatches(s, t, qs) ==
  HasTopic(s, t) /\ NoDup(qs) /\ { qs[i] : i \in DOMAIN qs } = PartsOf(s, t)

(************************ what must hold of any store **********************)
StoreOK(s) ==
  /\ \A k \in DOMAIN s.log : k[1] \in s.topics
  /\ \A k \in DOMAIN s.comm : <<k[2], k[3]>> \in DOMAIN s.log

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* b is a later state of the same store (offsets set explicitly aside)
LaterData(a, b) ==
  /\ a.topics \subseteq b.topics
  /\ \A k \in DOMAIN a.log : k \in DOMAIN b.log /\ IsPrefixOf(a.log[k], b.log[k])
  /\ DOMAIN a.comm \subseteq DOMAIN b.comm
============================================================================
