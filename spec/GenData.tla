----------------------------- MODULE GenData -----------------------------
(***************************************************************************)
(* Behaviours of the data plane, generated for replay on the real server.  *)
(* The state is the store; hist is the sequence of operations that led to  *)
(* it, hidden by the view, so TLC's breadth-first search reaches every     *)
(* store state once, by a shortest history, and takes every operation from *)
(* it.  Each transition is printed as one behaviour: the checks replay all *)
(* of them (each followed by reads of everything) and judge what the       *)
(* server answered with Trace.tla.  In simulation mode (Depth > 0) only    *)
(* the complete random behaviours of that length are printed.              *)
(***************************************************************************)
EXTENDS Store, Json

CONSTANTS
  TP,        \* <<topic, partition>> pairs in play
  Classes,   \* record classes: [kl, vl, ts]
  MaxLog,    \* records per partition
  Groups, Offs,
  Ops,       \* which operations are in play
  Depth      \* 0: print every transition; else print behaviours of this length

\* values of the configurations
TP1 == { <<0, 0>> }
TP2 == { <<0, 0>>, <<0, 1>> }
TP4 == { <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> }
C1 == { [kl |-> 3, vl |-> 9, ts |-> 2] }
C4 == { [kl |-> -1, vl |-> 8, ts |-> 1], [kl |-> 4, vl |-> 30, ts |-> 2],
        [kl |-> 0, vl |-> 8, ts |-> 3], [kl |-> 9, vl |-> -1, ts |-> 2] }
C3 == { [kl |-> -1, vl |-> 8, ts |-> 1], [kl |-> 4, vl |-> 30, ts |-> 3], [kl |-> 9, vl |-> 0, ts |-> 2] }
G1 == {0}
G2 == {0, 1}
O3 == -1..2
O4 == -1..3
OpsLog == {"post"}
OpsComm == {"mk", "commit", "setoff"}
OpsTopo == {"mk", "post"}
OpsAll == {"mk", "post", "commit", "setoff", "fetch", "list", "ofetch", "meta", "sync", "restart"}

VARIABLES s, hist
vars == <<s, hist>>
View == s

Init == s = EmptyStore /\ hist = <<>>

Put(s2, o) == s' = s2 /\ hist' = Append(hist, o)

Post(t, q, c) ==
  /\ "post" \in Ops
  /\ IF HasPart(s, t, q) THEN End(s, t, q) < MaxLog ELSE TRUE
  /\ LET s2 == MkPart(MkTopic(s, t), t, q)
     IN Put(AppendRec(s2, t, q, Rec(c, WireSize(c.kl, c.vl), c.ts)), [o |-> "post", t |-> t, q |-> q, c |-> c])

Mk(t, q) ==
  /\ "mk" \in Ops
  /\ Put(MkPart(MkTopic(s, t), t, q), [o |-> "mk", t |-> t, q |-> q])

Set(t, q, g, v) ==
  /\ "setoff" \in Ops
  /\ Put(SetOff(s, g, t, q, v), [o |-> "setoff", t |-> t, q |-> q, g |-> g, v |-> v])

\* one request commits one or all of the partitions
Commit(g, tps, v) ==
  /\ "commit" \in Ops
  /\ LET RECURSIVE F(_, _)
         F(st, k) == IF k = {} THEN st
                     ELSE LET x == CHOOSE y \in k : TRUE
                          IN F(CommitMax(st, g, x[1], x[2], v + (IF x[2] = 0 THEN 0 ELSE 1)), k \ {x})
     IN Put(F(s, tps), [o |-> "commit", g |-> g,
                        tg |-> { [t |-> x[1], q |-> x[2], v |-> v + (IF x[2] = 0 THEN 0 ELSE 1)] : x \in tps }])

\* the sizes at which the answer to a fetch changes
RECURSIVE Sum(_, _)
Sum(L, n) == IF n = 0 THEN 0 ELSE Sum(L, n - 1) + L[n].size

Fetch(t, q, off, k, d) ==
  /\ "fetch" \in Ops
  /\ LET L == IF HasPart(s, t, q) THEN Log(s, t, q) ELSE <<>>
         b == IF off < 0 THEN 0 ELSE IF off > Len(L) THEN Len(L) ELSE off
         n == IF b + k > Len(L) THEN Len(L) ELSE b + k
     IN Put(s, [o |-> "fetch", t |-> t, q |-> q, off |-> off, max |-> Sum(L, n) - Sum(L, b) + d])

List(t, q, ts) == "list" \in Ops /\ Put(s, [o |-> "list", t |-> t, q |-> q, ts |-> ts])
OFetch(g, tps) == "ofetch" \in Ops /\ Put(s, [o |-> "ofetch", g |-> g, tp |-> tps])
Meta(all) == "meta" \in Ops /\ Put(s, [o |-> "meta", all |-> all])
Sync == "sync" \in Ops /\ Put(s, [o |-> "sync"])
Restart == "restart" \in Ops /\ hist # <<>> /\ Put(s, [o |-> "restart"])

Next ==
  /\ (Depth > 0 => Len(hist) < Depth)
  /\ \/ \E x \in TP, c \in Classes : Post(x[1], x[2], c)
     \/ \E x \in TP : Mk(x[1], x[2])
     \/ \E x \in TP, g \in Groups, v \in Offs : Set(x[1], x[2], g, v)
     \/ \E x \in TP, g \in Groups, v \in Offs : Commit(g, {x}, v)
     \/ \E g \in Groups, v \in Offs : Cardinality(TP) > 1 /\ Commit(g, TP, v)
     \/ \E x \in TP, off \in -1..(MaxLog + 1), k \in 0..2, d \in {-1, 0, 1} : Fetch(x[1], x[2], off, k, d)
     \/ \E x \in TP, ts \in -2..4 : List(x[1], x[2], ts)
     \/ \E g \in Groups, x \in TP : OFetch(g, {x})
     \/ \E g \in Groups : OFetch(g, TP)
     \/ \E a \in BOOLEAN : Meta(a)
     \/ Sync
     \/ Restart

Spec == Init /\ [][Next]_vars

\* simulation: one successor per state, the kind of operation chosen first
One(S) == {RandomElement(S)}
SimNext ==
  /\ Len(hist) < Depth
  /\ \E k \in One(1..16), x \in One(TP), g \in One(Groups) :
       CASE k \in 1..4 /\ (~HasPart(s, x[1], x[2]) \/ End(s, x[1], x[2]) < MaxLog) ->
              \E c \in One(Classes) : Post(x[1], x[2], c)
         [] k = 5 -> Mk(x[1], x[2])
         [] k = 6 -> \E v \in One(Offs) : Set(x[1], x[2], g, v)
         [] k \in 7..8 -> \E v \in One(Offs), all \in One({0, 1, 2}) : Commit(g, IF all = 0 THEN TP ELSE {x}, v)
         [] k \in 9..11 -> \E n \in One(0..2), d \in One({-1, 0, 1}),
                             off \in One(-1..(1 + IF HasPart(s, x[1], x[2]) THEN End(s, x[1], x[2]) ELSE 0)) :
                          Fetch(x[1], x[2], off, n, d)
         [] k = 12 -> \E ts \in One(-2..4) : List(x[1], x[2], ts)
         [] k = 13 -> OFetch(g, {x})
         [] k = 14 -> OFetch(g, TP)
         [] k = 15 -> \E a \in One(BOOLEAN) : Meta(a)
         [] k = 16 /\ hist # <<>> -> \E r \in One(1..3) : IF r = 1 THEN Restart ELSE Sync
         [] OTHER -> Mk(x[1], x[2])
SimSpec == Init /\ [][SimNext]_vars

\* committed offsets other than those set explicitly only rise, logs only grow
Grow == [][LaterData(s, s') /\
           (Len(hist') > Len(hist) /\ hist'[Len(hist')].o = "commit" =>
              \A k \in DOMAIN s.comm : s'.comm[k] >= s.comm[k])]_vars
Valid == StoreOK(s)

Emit == IF Depth = 0 THEN PrintT("VRF-GEN " \o ToJson(hist'))
         ELSE Len(hist') = Depth => PrintT("VRF-GEN " \o ToJson(hist'))
============================================================================
