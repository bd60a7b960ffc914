------------------------------ MODULE Answers ------------------------------
(***************************************************************************)
(* Requests and answers: the part of an answer that does not depend on the *)
(* data, and the components of an answer each of which must match the      *)
(* store at one instant (Store).  Shared by the trace acceptor (Trace) and *)
(* the design model (Server).                                              *)
(***************************************************************************)
EXTENDS Store

\* entry and target structure of the answer repeats the request's
SameShape(q, a) ==
  /\ a.tn = q.tn
  /\ a.np = q.np
  /\ \A i \in DOMAIN q.tg : a.tg[i].t = q.tg[i].t /\ a.tg[i].q = q.tg[i].q

Requested(q, t, p) == Cardinality({ i \in DOMAIN q.tg : q.tg[i].t = t /\ q.tg[i].q = p })
AnsweredFor(a, t, p) == Cardinality({ i \in DOMAIN a.tg : a.tg[i].t = t /\ a.tg[i].q = p })

\* ListedApis: the eleven APIs served, each at one version
ListedApis == << <<1, 2, 2>>, <<2, 1, 1>>, <<3, 1, 1>>, <<8, 2, 2>>, <<9, 1, 1>>, <<10, 0, 0>>,
                 <<11, 1, 1>>, <<12, 0, 0>>, <<13, 0, 0>>, <<14, 0, 0>>, <<18, 0, 0>> >>

Here(b, MyPort) == b.host \in {"localhost", "127.0.0.1", "::1"} /\ b.port = MyPort

\* the part of an answer that does not depend on the store
StaticOK(q, a, MyPort) ==
  CASE q.k \in {"fetch", "list", "commit"} -> SameShape(q, a)
    [] q.k = "ofetch" ->
         /\ \A i \in DOMAIN a.tg : LET n == AnsweredFor(a, a.tg[i].t, a.tg[i].q) IN
              n <= Requested(q, a.tg[i].t, a.tg[i].q)
    [] q.k = "meta" ->
         /\ ~q.null => a.tn = q.tn
         /\ q.null => NoDup(a.tn)
         /\ \A i \in DOMAIN a.en : a.en[i].err = 0 /\ \A j \in DOMAIN a.en[i].ps :
              /\ a.en[i].ps[j].err = 0
              /\ \E b \in DOMAIN a.brokers : a.brokers[b].id = a.en[i].ps[j].ld
         /\ \A b \in DOMAIN a.brokers : Here(a.brokers[b], MyPort)
         /\ Len(a.brokers) >= 1
    [] q.k = "coord" -> a.err = 0 /\ Here(a.brokers[1], MyPort)
    [] q.k = "join" -> a.err = 0 /\ a.leader # a.member
    [] q.k \in {"beat", "leave"} -> a.err = 0
    [] q.k = "sync" -> a.err = 0 /\ NoDup(a.tn)
    [] q.k = "apiv" -> a.err = 0 /\ a.apis = ListedApis
    [] OTHER -> FALSE

Qs(e) == [j \in DOMAIN e.ps |-> e.ps[j].q]
SeqSet(x) == { x[i] : i \in DOMAIN x }

\* components of an answer that must each match the store at some instant
Comps(q, a) ==
  CASE q.k \in {"fetch", "list", "commit"} -> DOMAIN q.tg
    [] q.k = "ofetch" -> { <<"e", i>> : i \in DOMAIN a.tg } \cup { <<"r", i>> : i \in DOMAIN q.tg }
    [] q.k \in {"meta", "sync"} -> {0} \cup DOMAIN a.en
    [] OTHER -> {}

CompOK(st, q, a, j) ==
  CASE q.k = "fetch" -> LET x == q.tg[j] IN FetchMatches(st, x.t, x.q, x.off, x.max, a.tg[j])
    [] q.k = "list" -> LET x == q.tg[j] IN ListMatches(st, x.t, x.q, x.kind, x.ts, a.tg[j])
    [] q.k = "commit" -> LET x == q.tg[j] IN a.tg[j].err = ErrUnknown /\ ~HasPart(st, x.t, x.q)
    [] q.k = "ofetch" ->
         IF j[1] = "e" THEN LET x == a.tg[j[2]] IN OFetchMatches(st, q.g, x.t, x.q, x)
         ELSE LET x == q.tg[j[2]] IN
              AnsweredFor(a, x.t, x.q) = Requested(q, x.t, x.q) \/ ~HasPart(st, x.t, x.q)
    [] q.k = "meta" -> IF j = 0 THEN q.null => SeqSet(a.tn) = st.topics
                       ELSE MetaMatches(st, a.en[j].t, Qs(a.en[j]))
    [] q.k = "sync" -> IF j = 0 THEN SeqSet(a.tn) = st.topics
                       ELSE SyncMatches(st, a.en[j].t, Qs(a.en[j]))

============================================================================
