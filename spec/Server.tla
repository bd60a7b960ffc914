------------------------------ MODULE Server ------------------------------
(***************************************************************************)
(* The design of the mock broker, step by step as it is implemented: posts *)
(* with their three critical sections (kafka-mock.go, datastore.go), the   *)
(* accept loop and the life cycle (kafka-mock.go: Start, RequestStop,      *)
(* WaitForTermination, Restart, FinishRequests, run), one handler per      *)
(* connection (kafka-client.go: read, take complete requests, dispatch,    *)
(* write) and the request handlers as far as they touch shared data, one   *)
(* critical section per step (fetch.go, list_offsets.go, offset_commit.go, *)
(* offset_fetch.go, metadata.go, sync_group.go); and around it the         *)
(* environment: posters, callers of the life cycle operations, clients     *)
(* that connect, send requests in pieces, read or do not read answers,     *)
(* close, half-close or reset at any moment.                               *)
(*                                                                         *)
(* Checked: that answers are what Store says at an instant between the     *)
(* request and the answer (Linear), that completed posts and answered      *)
(* commits stay (Stay), that nothing is left when waiting for termination  *)
(* returns (Released), that requests are answered in order (InOrder), that *)
(* a waiting fetch is not answered early (NotEarly), and - with fairness   *)
(* of the server's own steps - that requests are answered, waiting fetches *)
(* wake, connections are given back and stopping terminates (liveness).    *)
(* Bugs names deliberate mistakes; with each of them one of these must     *)
(* fail (the configurations named Server_bug): no property is vacuous.     *)
(*                                                                         *)
(* With Record, obs is the sequence of events that the harness would have  *)
(* journalled; the checks have Trace.tla judge such sequences: it accepts  *)
(* those of this design and rejects those of a mistaken one.               *)
(***************************************************************************)
EXTENDS Answers

CONSTANTS
  Plans,     \* poster -> sequence of operations
  Scripts,   \* connection -> sequence of requests
  Life,      \* caller -> sequence of life cycle operations
  Pieces,    \* pieces a request is sent in
  Room,      \* answers that fit on the way to a client that does not read
  Readers,   \* connections whose clients read
  Faults,    \* what clients do: subset of {"fin", "rst", "half"}
  Ghosts,    \* whether to remember the stores a request has seen
  Record,    \* whether to write obs
  Bugs

VARIABLES
  s,         \* the store
  wr,        \* poster -> [i, pc]
  nt,        \* connection -> the socket
  hd,        \* connection -> its handler
  sv,        \* the server: [run, stopped, started, listening, cancelled]
  api,       \* caller -> [i, pc]
  gh,        \* connection -> the stores seen since the request now awaited was sent
  sure,      \* the posts that have returned
  obs, now

vars == <<s, wr, nt, hd, sv, api, gh, sure, obs, now>>

Posters == DOMAIN Plans
Cs == DOMAIN Scripts
Callers == DOMAIN Life
Forever == 100000000

(************************ values for the configurations ********************)
NoPlans == <<>>
Rq(k) == [k |-> k]
FetchRq(w, tg) == [k |-> "fetch", wait |-> w, tn |-> [i \in DOMAIN tg |-> tg[i].t], np |-> [i \in DOMAIN tg |-> 1], tg |-> tg]
ListRq(tg) == [k |-> "list", tn |-> [i \in DOMAIN tg |-> tg[i].t], np |-> [i \in DOMAIN tg |-> 1], tg |-> tg]
CommitRq(g, tg) == [k |-> "commit", g |-> g, tn |-> [i \in DOMAIN tg |-> tg[i].t], np |-> [i \in DOMAIN tg |-> 1], tg |-> tg]
OFetchRq(g, tg) == [k |-> "ofetch", g |-> g, tn |-> [i \in DOMAIN tg |-> tg[i].t], np |-> [i \in DOMAIN tg |-> 1], tg |-> tg]
MetaRq == [k |-> "meta", null |-> TRUE, tn |-> <<>>]
SyncRq == [k |-> "sync"]
PostOp(t, q, id, size) == [o |-> "post", t |-> t, q |-> q, id |-> id, size |-> size]
MkOp(t, q) == [o |-> "mk", t |-> t, q |-> q]
SetOp(g, t, q, v) == [o |-> "set", t |-> t, q |-> q, g |-> g, v |-> v]
FT(t, q, off, max) == [t |-> t, q |-> q, off |-> off, max |-> max]
LT(t, q) == [t |-> t, q |-> q, kind |-> "latest", ts |-> 0]
CT(t, q, off) == [t |-> t, q |-> q, off |-> off]
TQ(t, q) == [t |-> t, q |-> q]

(************************ helpers ******************************************)
Emit(e) == obs' = IF Record THEN Append(obs, e @@ [t |-> now]) ELSE obs
Quiet_ == UNCHANGED <<obs, now>>

\* every request awaited has seen the new store
Seen(st) == gh' = IF Ghosts THEN [c \in Cs |-> [i \in DOMAIN gh[c] |-> gh[c][i] \cup {st}]] ELSE gh

Nil == [pc |-> "none", i |-> 0, j |-> 0, more |-> FALSE, has |-> FALSE, exp |-> FALSE, tmp |-> 0, ans |-> <<>>]
Line == [cl |-> "none", sv |-> "none", sent |-> 0, read |-> 0, took |-> 0, out |-> <<>>, got |-> 0, part |-> FALSE]

Init ==
  /\ s = EmptyStore
  /\ wr = [p \in Posters |-> [i |-> 1, pc |-> "idle"]]
  /\ nt = [c \in Cs |-> Line]
  /\ hd = [c \in Cs |-> Nil]
  /\ sv = [run |-> "off", stopped |-> FALSE, started |-> FALSE, listening |-> FALSE, cancelled |-> FALSE]
  /\ api = [p \in Callers |-> [i |-> 1, pc |-> "idle"]]
  /\ gh = [c \in Cs |-> <<>>]
  /\ sure = {}
  /\ obs = <<>> /\ now = 0

RECURSIVE SetToS(_)
SetToS(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToS(S \ {x})
SetToPs(S) == LET q == SetToS(S) IN [i \in DOMAIN q |-> [q |-> q[i], err |-> 0, ld |-> 100]]

(************************ posters ******************************************)
Op(p) == Plans[p][wr[p].i]
PostCall(p) == LET o == Op(p) IN
  CASE o.o = "post" -> [e |-> "call", p |-> <<p, wr[p].i>>, k |-> "post", tp |-> o.t, q |-> o.q, id |-> o.id, kl |-> 0, vl |-> o.size - Overhead,
                        at |-> 0, lo |-> 5, hi |-> 5, ts |-> 5]
    [] o.o = "mk" -> [e |-> "call", p |-> <<p, wr[p].i>>, k |-> "mk", tps |-> <<o.t>>, q |-> o.q]
    [] o.o = "set" -> [e |-> "call", p |-> <<p, wr[p].i>>, k |-> "setoff", tp |-> o.t, q |-> o.q, g |-> o.g, off |-> o.v]

First(p) == IF Op(p).o = "set" THEN "set" ELSE "topic"
Begin(p) ==
  /\ Record /\ wr[p].i <= Len(Plans[p]) /\ wr[p].pc = "idle"
  /\ wr' = [wr EXCEPT ![p].pc = First(p)]
  /\ Emit(PostCall(p))
  /\ UNCHANGED <<s, nt, hd, sv, api, gh, sure, now>>

\* (calling and returning are steps of their own only where they are recorded)
At(p, pc) == wr[p].pc = pc \/ (~Record /\ wr[p].i <= Len(Plans[p]) /\ wr[p].pc = "idle" /\ First(p) = pc)
Surely(p) == IF Op(p).o = "post" THEN sure \cup {<<Op(p).t, Op(p).q, Op(p).id>>} ELSE sure
PStep(p, st, pc) ==
  /\ s' = st /\ Seen(st)
  /\ IF pc = "ret" /\ ~Record
       THEN wr' = [wr EXCEPT ![p] = [i |-> @.i + 1, pc |-> "idle"]] /\ sure' = Surely(p)
       ELSE wr' = [wr EXCEPT ![p].pc = pc] /\ UNCHANGED sure
  /\ UNCHANGED <<nt, hd, sv, api>> /\ Quiet_

PTopic(p) == At(p, "topic") /\ PStep(p, MkTopic(s, Op(p).t), "part")

PPart(p) ==
  /\ wr[p].pc = "part"
  /\ LET o == Op(p) n == IF o.o = "post" THEN "append" ELSE "ret" IN
     IF "create-race" \in Bugs /\ ~HasPart(s, o.t, o.q)
       THEN PStep(p, s, "insert")
       ELSE PStep(p, MkPart(s, o.t, o.q), n)

\* (a mistake: the partition is inserted after the check, whatever has been inserted meanwhile)
PInsert(p) ==
  /\ wr[p].pc = "insert"
  /\ LET o == Op(p) IN
     PStep(p, [s EXCEPT !.log = (<<o.t, o.q>> :> <<>>) @@ @], IF o.o = "post" THEN "append" ELSE "ret")

PAppend(p) ==
  /\ wr[p].pc = "append"
  /\ LET o == Op(p) IN PStep(p, AppendRec(s, o.t, o.q, Rec(o.id, o.size, 5)), "ret")

PSet(p) ==
  /\ At(p, "set")
  /\ LET o == Op(p) IN PStep(p, SetOff(s, o.g, o.t, o.q, o.v), "ret")

PRet(p) ==
  /\ wr[p].pc = "ret"
  /\ wr' = [wr EXCEPT ![p] = [@ EXCEPT !.i = @ + 1, !.pc = "idle"]]
  /\ sure' = Surely(p)
  /\ Emit([e |-> "ret", p |-> <<p, wr[p].i>>, k |-> PostCall(p).k])
  /\ UNCHANGED <<s, nt, hd, sv, api, gh, now>>

Poster(p) == PTopic(p) \/ PPart(p) \/ PInsert(p) \/ PAppend(p) \/ PSet(p) \/ PRet(p)

(************************ life cycle ***************************************)
AOp(p) == Life[p][api[p].i]
ATo(p, pc) == api' = [api EXCEPT ![p].pc = pc]
ADone(p) == api' = [api EXCEPT ![p] = [i |-> @.i + 1, pc |-> "idle"]]
ARet(p) == Emit([e |-> "ret", p |-> <<p, api[p].i>>, k |-> AOp(p)])
Others == UNCHANGED <<s, wr, hd, gh, sure, now>>

ACall(p) ==
  /\ api[p].i <= Len(Life[p]) /\ api[p].pc = "idle"
  /\ ATo(p, CASE AOp(p) = "start" -> "start" [] AOp(p) \in {"stop", "restart"} -> "rs1" [] AOp(p) = "wait" -> "w1" [] AOp(p) = "finish" -> "fin"
                [] AOp(p) \in {"up", "served"} -> AOp(p))
  /\ IF AOp(p) \in {"up", "served"} THEN UNCHANGED obs ELSE Emit([e |-> "call", p |-> <<p, api[p].i>>, k |-> AOp(p)])
  /\ UNCHANGED <<s, wr, nt, hd, sv, gh, sure, now>>

AStart(p) ==
  /\ api[p].pc = "start" /\ ~sv.started
  /\ sv' = [run |-> "bind", stopped |-> FALSE, started |-> TRUE, listening |-> FALSE, cancelled |-> FALSE]
  /\ s' = IF "restart-loses" \in Bugs THEN [s EXCEPT !.comm = <<>>] ELSE s
  /\ IF AOp(p) = "restart" THEN ATo(p, "bound") /\ UNCHANGED obs ELSE ADone(p) /\ ARet(p)
  /\ UNCHANGED <<wr, nt, hd, gh, sure, now>>

ABound(p) ==
  /\ api[p].pc = "bound" /\ sv.run # "bind"
  /\ ADone(p) /\ ARet(p)
  /\ UNCHANGED <<sv, nt>> /\ Others

AUp(p) ==
  /\ api[p].pc = "up" /\ sv.listening
  /\ ADone(p) /\ Emit([e |-> "up"])
  /\ UNCHANGED <<sv, nt>> /\ Others

\* (waits for an answer to a client)
AServed(p) ==
  /\ api[p].pc = "served" /\ \E c \in Cs : nt[c].got > 0
  /\ ADone(p) /\ UNCHANGED obs
  /\ UNCHANGED <<sv, nt>> /\ Others

\* RequestStop
AfterStop(p) == IF AOp(p) = "stop" THEN ADone(p) /\ ARet(p)
                ELSE IF api[p].pc \in {"w2", "wrs2", "wrs3", "wrs4"} THEN
                       (IF AOp(p) = "restart" THEN ATo(p, "start") /\ UNCHANGED obs ELSE ADone(p) /\ ARet(p))
                ELSE ATo(p, "w1") /\ UNCHANGED obs

ARs1(p) ==
  /\ api[p].pc \in {"rs1", "w2"}
  /\ LET w == IF api[p].pc = "w2" THEN "wrs2" ELSE "rs2" IN
     IF ~sv.stopped /\ sv.started THEN ATo(p, w) /\ sv' = [sv EXCEPT !.stopped = TRUE] /\ UNCHANGED obs
     ELSE sv' = [sv EXCEPT !.stopped = TRUE] /\ AfterStop(p)
  /\ UNCHANGED nt /\ Others

ARs2(p) ==
  /\ api[p].pc \in {"rs2", "wrs2"} /\ sv.run # "bind"
  /\ ATo(p, IF api[p].pc = "rs2" THEN "rs3" ELSE "wrs3")
  /\ UNCHANGED <<sv, nt, obs>> /\ Others

\* the listener is closed: the kernel resets who was not accepted yet
ARs3(p) ==
  /\ api[p].pc \in {"rs3", "wrs3"}
  /\ ATo(p, IF api[p].pc = "rs3" THEN "rs4" ELSE "wrs4")
  /\ sv' = [sv EXCEPT !.listening = FALSE]
  /\ nt' = [c \in Cs |-> IF nt[c].sv = "backlog" THEN [nt[c] EXCEPT !.sv = "closed"] ELSE nt[c]]
  /\ UNCHANGED obs /\ Others

ARs4(p) ==
  /\ api[p].pc \in {"rs4", "wrs4"}
  /\ sv' = [sv EXCEPT !.cancelled = TRUE]
  /\ AfterStop(p)
  /\ UNCHANGED nt /\ Others

Gone(c) == hd[c].pc \in {"none", "gone"}
AWait(p) ==
  /\ api[p].pc = "w1" /\ sv.run \in {"off", "ended"} /\ ("wait-early" \in Bugs \/ \A c \in Cs : Gone(c))
  /\ ATo(p, "w2")
  /\ UNCHANGED <<sv, nt, obs>> /\ Others

AFinish(p) ==
  /\ api[p].pc = "fin"
  /\ sv' = IF sv.run = "off" THEN sv ELSE [sv EXCEPT !.cancelled = TRUE]
  /\ ADone(p) /\ ARet(p)
  /\ UNCHANGED nt /\ Others

Caller(p) == AStart(p) \/ ABound(p) \/ AUp(p) \/ AServed(p) \/ ARs1(p) \/ ARs2(p) \/ ARs3(p) \/ ARs4(p) \/ AWait(p) \/ AFinish(p)

\* the accept loop
RBind ==
  /\ sv.run = "bind"
  /\ sv' = [sv EXCEPT !.run = "accept", !.listening = TRUE]
  /\ UNCHANGED <<nt, api, obs>> /\ Others

RAccept(c) ==
  /\ sv.run = "accept" /\ nt[c].sv = "backlog" /\ sv.listening
  /\ IF sv.cancelled
       THEN nt' = [nt EXCEPT ![c].sv = "closed"] /\ UNCHANGED hd
       ELSE nt' = [nt EXCEPT ![c].sv = "open"] /\ hd' = [hd EXCEPT ![c].pc = "top"]
  /\ UNCHANGED <<s, wr, sv, api, gh, sure, obs, now>>

RClosed ==
  /\ sv.run = "accept" /\ ~sv.listening
  /\ sv' = [sv EXCEPT !.run = "drain"]
  /\ UNCHANGED <<nt, api, obs>> /\ Others

REnd ==
  /\ sv.run = "drain" /\ ("wait-early" \in Bugs \/ \A c \in Cs : Gone(c))
  /\ sv' = [sv EXCEPT !.run = "ended", !.started = FALSE]
  /\ UNCHANGED <<nt, api, obs>> /\ Others

Runner == RBind \/ RClosed \/ REnd \/ \E c \in Cs : RAccept(c)

(************************ a connection's handler ***************************)
HTo(c, h) == hd' = [hd EXCEPT ![c] = h]
HRest == UNCHANGED <<s, wr, sv, api, gh, sure>> /\ Quiet_
Full(c) == nt[c].read - nt[c].took >= Pieces       \* a complete request is there
\* closing with unread bytes may lose answers on their way
CloseSv(c) ==
  \E keep \in IF nt[c].sent > nt[c].read /\ nt[c].out # <<>> THEN {TRUE, FALSE} ELSE {TRUE} :
    nt' = [nt EXCEPT ![c] = [@ EXCEPT !.sv = "closed", !.out = IF keep THEN @ ELSE <<>>]]

HTake(c) ==
  /\ hd[c].pc = "top" /\ Full(c)
  /\ nt' = [nt EXCEPT ![c].took = IF "pipelined-drop" \in Bugs THEN nt[c].read - (nt[c].read % Pieces) ELSE @ + Pieces]
  /\ HTo(c, [Nil EXCEPT !.pc = "look", !.i = nt[c].took \div Pieces + 1, !.j = 1])
  /\ HRest

HStop(c) ==
  /\ hd[c].pc = "top" /\ (~Full(c) \/ "drop-read" \in Bugs) /\ sv.cancelled /\ "serve-after-finish" \notin Bugs
  /\ CloseSv(c) /\ HTo(c, [Nil EXCEPT !.pc = "gone"])
  /\ HRest

HRead(c) ==
  /\ hd[c].pc = "top" /\ ~Full(c) /\ (~sv.cancelled \/ "serve-after-finish" \in Bugs)
  /\ nt[c].sent > nt[c].read /\ nt[c].cl # "reset"
  /\ nt' = [nt EXCEPT ![c].read = nt[c].sent]
  /\ UNCHANGED hd /\ HRest

HEof(c) ==
  /\ hd[c].pc = "top" /\ ~Full(c)
  /\ nt[c].cl = "reset" \/ (nt[c].cl \in {"half", "closed"} /\ nt[c].sent = nt[c].read)
  /\ "eof-spins" \notin Bugs
  /\ CloseSv(c) /\ HTo(c, [Nil EXCEPT !.pc = "gone"])
  /\ HRest

R(c) == Scripts[c][hd[c].i]
N(c) == IF R(c).k \in {"fetch", "list", "commit", "ofetch"} THEN Len(R(c).tg) ELSE 0

\* fetch: the partitions are looked up first
FetchInit(t, q, off) == [t |-> t, q |-> q, err |-> IF HasPart(s, t, q) /\ off < 0 THEN ErrRange ELSE ErrNone,
                         kp |-> HasPart(s, t, q) /\ off >= 0, off |-> off, recs |-> <<>>, room |-> 0]
Respond(c, h, a) == [h EXCEPT !.pc = "send", !.ans = a]

HLook(c) ==
  /\ hd[c].pc = "look" /\ R(c).k # "commit"
  /\ LET h == hd[c] q == R(c) j == h.j IN
     CASE q.k = "fetch" ->
          IF j > N(c) THEN HTo(c, [h EXCEPT !.pc = "scan", !.j = 1, !.exp = q.wait = 0])
          ELSE LET f == FetchInit(q.tg[j].t, q.tg[j].q, q.tg[j].off) IN
               HTo(c, [h EXCEPT !.ans = Append(@, [f EXCEPT !.room = q.tg[j].max]), !.has = @ \/ f.err # 0, !.j = j + 1])
       [] q.k = "list" ->
          IF j > N(c) THEN HTo(c, Respond(c, h, [k |-> "list", wire |-> "", tn |-> q.tn, np |-> q.np, tg |-> h.ans]))
          ELSE LET x == q.tg[j] IN
               HTo(c, [h EXCEPT !.j = j + 1, !.ans = Append(@, IF HasPart(s, x.t, x.q) THEN [t |-> x.t, q |-> x.q, err |-> 0, off |-> End(s, x.t, x.q), ts |-> 0]
                                                                ELSE [t |-> x.t, q |-> x.q, err |-> ErrUnknown, off |-> 0, ts |-> 0])])
       [] q.k = "ofetch" ->
          IF j > N(c) THEN HTo(c, Respond(c, h, [k |-> "ofetch", wire |-> "", tn |-> [i \in DOMAIN h.ans |-> h.ans[i].t], np |-> [i \in DOMAIN h.ans |-> 1], tg |-> h.ans]))
          ELSE LET x == q.tg[j] IN
               HTo(c, [h EXCEPT !.j = j + 1, !.ans = IF HasPart(s, x.t, x.q) THEN Append(@, [t |-> x.t, q |-> x.q, err |-> 0, off |-> Committed(s, q.g, x.t, x.q)]) ELSE @])
       [] q.k = "meta" ->    \* the topics, then each one's partitions
          IF j = 1 THEN HTo(c, [h EXCEPT !.j = 2, !.tmp = s.topics])
          ELSE IF h.tmp # {} THEN LET t == CHOOSE x \in h.tmp : TRUE IN
               HTo(c, [h EXCEPT !.tmp = @ \ {t}, !.ans = Append(@, [t |-> t, err |-> 0, ps |-> SetToPs(PartsOf(s, t))])])
          ELSE HTo(c, Respond(c, h, [k |-> "meta", wire |-> "", err |-> 0, tn |-> [i \in DOMAIN h.ans |-> h.ans[i].t], en |-> h.ans,
                                     brokers |-> << [id |-> 100, host |-> "localhost", port |-> 1] >>]))
       [] q.k = "sync" ->    \* under the lock of the store
          LET ts == SetToS(s.topics) IN
          HTo(c, Respond(c, h, [k |-> "sync", wire |-> "", err |-> 0, tn |-> ts, en |-> [i \in DOMAIN ts |-> [t |-> ts[i], err |-> 0, ps |-> SetToPs(PartsOf(s, ts[i]))]]]))
       [] q.k = "apiv" -> HTo(c, Respond(c, h, [k |-> "apiv", wire |-> "", err |-> 0, apis |-> ListedApis]))
  /\ UNCHANGED nt /\ HRest

\* commit: one partition at a time
HCommit(c) ==
  /\ hd[c].pc = "look" /\ R(c).k = "commit"
  /\ LET h == hd[c] q == R(c) j == h.j IN
     IF j > N(c) THEN HTo(c, Respond(c, h, [k |-> "commit", wire |-> "", tn |-> q.tn, np |-> q.np, tg |-> h.ans])) /\ UNCHANGED <<s, gh>>
     ELSE LET x == q.tg[j] IN
          IF "commit-race" \in Bugs /\ HasPart(s, x.t, x.q) /\ h.tmp = 0
          THEN IF Committed(s, q.g, x.t, x.q) < x.off
                 THEN HTo(c, [h EXCEPT !.tmp = 1]) /\ UNCHANGED <<s, gh>>
                 ELSE HTo(c, [h EXCEPT !.j = j + 1, !.ans = Append(@, [t |-> x.t, q |-> x.q, err |-> 0])]) /\ UNCHANGED <<s, gh>>
          ELSE LET st == IF h.tmp = 1 THEN SetOff(s, q.g, x.t, x.q, x.off) ELSE CommitMax(s, q.g, x.t, x.q, x.off) IN
               /\ HTo(c, [h EXCEPT !.j = j + 1, !.tmp = 0, !.ans = Append(@, [t |-> x.t, q |-> x.q, err |-> IF HasPart(s, x.t, x.q) THEN 0 ELSE ErrUnknown])])
               /\ s' = st /\ Seen(st)
  /\ UNCHANGED <<wr, nt, sv, api, sure>> /\ Quiet_

\* fetch: one record of one partition at a time; at the end of a round, decide
Strip(c) == [i \in DOMAIN hd[c].ans |-> LET f == hd[c].ans[i] IN [t |-> f.t, q |-> f.q, err |-> f.err, hw |-> f.off, recs |-> f.recs]]
FetchAnswer(c) == [k |-> "fetch", wire |-> "", tn |-> R(c).tn, np |-> R(c).np, tg |-> Strip(c)]

HScan(c) ==
  /\ hd[c].pc = "scan"
  /\ LET h == hd[c] j == h.j IN
     IF j <= N(c) THEN
       LET f == h.ans[j] L == IF f.kp THEN Log(s, f.t, f.q) ELSE <<>> IN
       IF f.kp /\ f.off < Len(L)
       THEN LET r == L[f.off + 1]
                fits == r.size <= f.room
            IN HTo(c, [h EXCEPT !.j = j + 1, !.has = TRUE, !.more = @ \/ fits,
                                !.ans[j] = IF fits THEN [f EXCEPT !.off = @ + 1, !.room = @ - r.size, !.recs = Append(@, [off |-> f.off, id |-> r.id, ts |-> r.ts])] ELSE f])
       ELSE HTo(c, [h EXCEPT !.j = j + 1])
     ELSE IF h.more THEN HTo(c, [h EXCEPT !.j = 1, !.more = FALSE])
     ELSE IF h.has \/ h.exp \/ sv.cancelled \/ "early-empty" \in Bugs THEN HTo(c, Respond(c, h, FetchAnswer(c)))
     ELSE HTo(c, [h EXCEPT !.pc = IF Record THEN "nap" ELSE @, !.j = IF "stale-wait" \in Bugs THEN @ ELSE 1])
  /\ UNCHANGED nt /\ HRest

HNap(c) ==
  /\ hd[c].pc = "nap"
  /\ HTo(c, [hd[c] EXCEPT !.pc = "scan"])
  /\ UNCHANGED nt /\ HRest

\* the wait elapses
HExpire(c) ==
  /\ hd[c].pc \in {"scan", "nap"} /\ ~hd[c].exp /\ R(c).wait < Forever /\ ~Record
  /\ HTo(c, [hd[c] EXCEPT !.exp = TRUE])
  /\ UNCHANGED nt /\ HRest

\* the answer is written; to a client that is gone, to no effect
HSend(c) ==
  /\ hd[c].pc = "send"
  /\ \/ /\ nt[c].cl \in {"open", "half"} /\ Len(nt[c].out) < Room /\ ~("finish-drops" \in Bugs /\ sv.cancelled)
        /\ nt' = [nt EXCEPT ![c].out = Append(@, <<hd[c].i, hd[c].ans>>)]
     \/ /\ nt[c].cl \in {"closed", "reset"} \/ ("finish-drops" \in Bugs /\ sv.cancelled)
        /\ UNCHANGED nt
     \/ /\ nt[c].cl \in {"open", "half"} /\ Len(nt[c].out) >= Room /\ sv.cancelled /\ "no-deadline" \notin Bugs   \* the write deadline of a stopping server
        /\ UNCHANGED nt
  /\ HTo(c, [Nil EXCEPT !.pc = "top"])
  /\ HRest

Handler(c) == HTake(c) \/ HStop(c) \/ HRead(c) \/ HEof(c) \/ HLook(c) \/ HCommit(c) \/ HScan(c) \/ HNap(c) \/ HSend(c)

(************************ clients ******************************************)
Cid(c) == c
CRest == UNCHANGED <<s, wr, hd, sv, api, sure, now>>

Connected(l) == [l EXCEPT !.cl = IF sv.listening THEN "open" ELSE "refused", !.sv = IF sv.listening THEN "backlog" ELSE "none"]
CDial(c) ==
  /\ nt[c].cl = "none" /\ \E p \in Callers : api[p].i > 1
  /\ c = "late" => \A d \in Cs \ {c} : nt[d].cl \notin {"none", "dial", "open"}
  /\ nt' = [nt EXCEPT ![c] = IF Record THEN [@ EXCEPT !.cl = "dial"] ELSE Connected(@)]
  /\ Emit([e |-> "dial", c |-> Cid(c), nr |-> c \notin Readers])
  /\ UNCHANGED gh /\ CRest

COpen(c) ==
  /\ nt[c].cl = "dial"
  /\ nt' = [nt EXCEPT ![c] = Connected(@)]
  /\ Emit([e |-> "open", c |-> Cid(c), ok |-> sv.listening])
  /\ UNCHANGED gh /\ CRest

\* the next piece of the script; with the last piece of a request the request is sent
CSend(c) ==
  /\ nt[c].cl = "open" /\ nt[c].sent < Pieces * Len(Scripts[c])
  /\ nt' = [nt EXCEPT ![c].sent = @ + 1]
  /\ IF (nt[c].sent + 1) % Pieces = 0
       THEN LET n == (nt[c].sent + 1) \div Pieces IN
            /\ Emit([e |-> "send", c |-> Cid(c), n |-> n, req |-> Scripts[c][n]])
            /\ gh' = IF Ghosts THEN [gh EXCEPT ![c] = (n :> {s}) @@ @] ELSE gh
       ELSE UNCHANGED <<obs, gh>>
  /\ CRest

CRecv(c) ==
  /\ nt[c].cl \in {"open", "half"} /\ nt[c].out # <<>> /\ c \in Readers
  /\ LET m == Head(nt[c].out) IN
     /\ nt' = [nt EXCEPT ![c] = [@ EXCEPT !.out = Tail(@), !.got = m[1]]]
     /\ gh' = IF Ghosts THEN [gh EXCEPT ![c] = [i \in DOMAIN @ \ {m[1]} |-> @[i]]] ELSE gh
     /\ Emit([e |-> "recv", c |-> Cid(c), n |-> m[1], resp |-> m[2]])
  /\ CRest

CEof(c) ==
  /\ nt[c].cl \in {"open", "half"} /\ nt[c].sv = "closed" /\ nt[c].out = <<>> /\ c \in Readers
  /\ nt' = [nt EXCEPT ![c].cl = "closed"]
  /\ Emit([e |-> "eof", c |-> Cid(c), why |-> "eof"])
  /\ UNCHANGED gh /\ CRest

CClose(c) ==
  /\ nt[c].cl = "open" /\ nt[c].sv # "none"
  /\ \E how \in Faults :
       /\ nt' = [nt EXCEPT ![c].cl = IF how = "half" THEN "half" ELSE IF how = "rst" THEN "reset" ELSE "closed"]
       /\ Emit([e |-> "close", c |-> Cid(c), how |-> how])
  /\ UNCHANGED gh /\ CRest

Client(c) == CDial(c) \/ COpen(c) \/ CSend(c) \/ CRecv(c) \/ CEof(c) \/ CClose(c)

(************************ time, when recording *****************************)
\* nothing of the server can go on
Resting ==
  /\ \A p \in Posters : wr[p].pc = "idle"
  /\ \A p \in Callers : ~ENABLED Caller(p)
  /\ ~ENABLED Runner
  /\ \A c \in Cs : hd[c].pc = "nap" \/ ~ENABLED Handler(c)
  /\ \A c \in Cs : ~ENABLED CRecv(c) /\ ~ENABLED CEof(c) /\ nt[c].cl # "dial"
  /\ \A c \in Cs : hd[c].pc = "nap" => \A j \in DOMAIN hd[c].ans : LET f == hd[c].ans[j] IN IF f.kp THEN f.off >= End(s, f.t, f.q) ELSE TRUE

Tick ==
  /\ Record /\ Resting /\ now < 4000
  /\ now' = now + 800
  /\ hd' = [c \in Cs |-> IF hd[c].pc = "nap" /\ R(c).wait < 800 THEN [hd[c] EXCEPT !.exp = TRUE] ELSE hd[c]]
  /\ UNCHANGED <<s, wr, nt, sv, api, gh, sure, obs>>

Next ==
  \/ \E p \in Posters : Begin(p) \/ Poster(p)
  \/ \E p \in Callers : ACall(p) \/ Caller(p)
  \/ Runner
  \/ \E c \in Cs : Handler(c) \/ HExpire(c) \/ Client(c)
  \/ Tick

Fair ==
  /\ \A p \in Posters : WF_vars(Begin(p) \/ Poster(p))
  /\ \A p \in Callers : WF_vars(ACall(p) \/ Caller(p))
  /\ WF_vars(Runner)
  /\ \A c \in Cs : WF_vars(Handler(c)) /\ WF_vars(HExpire(c)) /\ WF_vars(COpen(c)) /\ WF_vars(CRecv(c)) /\ WF_vars(CEof(c))

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

(************************ what is checked **********************************)
StoreValid == StoreOK(s)

\* completed posts are in their log, once
Count(L, id) == Cardinality({ i \in DOMAIN L : L[i].id = id })
Stay == \A x \in sure : HasPart(s, x[1], x[2]) /\ Count(Log(s, x[1], x[2]), x[3]) = 1

\* the logs only grow; committed offsets only rise, unless set
Setting(p) == wr[p].i <= Len(Plans[p]) /\ Op(p).o = "set"
Grows == [][LaterData(s, s') /\ ((\A p \in Posters : ~Setting(p)) => \A k \in DOMAIN s.comm : s'.comm[k] >= s.comm[k])]_vars

\* every answer on its way is right: the fixed part, and each component at some
\* store between the request and now (where commits are: no refusal of what exists)
OnWay == { <<c, i>> \in Cs \X (1..Room) : i <= Len(nt[c].out) }
Linear ==
  Ghosts => \A x \in OnWay :
    LET c == x[1] n == nt[c].out[x[2]][1] a == nt[c].out[x[2]][2] q == Scripts[c][n] IN
    /\ StaticOK(q, a, 1)
    /\ q.k = "commit" => \A j \in DOMAIN q.tg : a.tg[j].err = 0 =>
           \E st \in gh[c][n] : Committed(st, q.g, q.tg[j].t, q.tg[j].q) >= q.tg[j].off
    /\ \A j \in Comps(q, a) : (q.k # "commit" \/ a.tg[j].err # 0) => \E st \in gh[c][n] : CompOK(st, q, a, j)

\* an answered commit is never lost (where nothing is set explicitly)
Floor ==
  \A c \in Cs : \A i \in 1..Len(nt[c].out) : LET n == nt[c].out[i][1] q == Scripts[c][n] a == nt[c].out[i][2] IN
    (q.k = "commit" /\ \A p \in Posters : \A o \in DOMAIN Plans[p] : Plans[p][o].o # "set") =>
      \A j \in DOMAIN q.tg : a.tg[j].err = 0 => Committed(s, q.g, q.tg[j].t, q.tg[j].q) >= q.tg[j].off

InOrder == \A c \in Cs : \A i \in 1..Len(nt[c].out) :
  nt[c].out[i][1] = nt[c].got + i \/ (c \notin Readers) \/ ("half" \notin Faults /\ nt[c].cl \notin {"open", "half"})

\* a fetch with nothing to return is not answered before its time
Empty(a) == \A j \in DOMAIN a.tg : a.tg[j].err = 0 /\ a.tg[j].recs = <<>>
Patient == [][\A c \in Cs : (hd[c].pc = "scan" /\ hd'[c].pc = "send") =>
                (~Empty(hd'[c].ans) \/ hd[c].exp \/ sv.cancelled \/ hd[c].has)]_vars

\* nothing is left when waiting has returned
Released == \A p \in Callers :
  (api[p].pc = "w2" /\ sv.run \in {"off", "ended"}) =>
     /\ \A c \in Cs : nt[c].sv # "open" /\ Gone(c)
     /\ ~sv.listening

\* what is being processed when the server is told to finish is still answered
Answered_ == [][\A c \in Cs : (hd[c].pc \in {"look", "scan", "nap", "send"} /\ hd'[c].pc \in {"top", "gone"} /\ nt[c].cl = "open" /\ c \in Readers /\ Len(nt[c].out) < Room)
                  => Len(nt'[c].out) = Len(nt[c].out) + 1]_vars

\* after the server was told, no more requests are taken from the network
NoService == [][\A c \in Cs : (sv.cancelled /\ sv'.cancelled) => nt'[c].read = nt[c].read]_vars

(************************ liveness *****************************************)
Told == sv.cancelled \/ ~sv.listening
\* a complete request of a client that stays and reads is answered
Answers_ == \A c \in Cs : \A n \in 1..Len(Scripts[c]) :
  (nt[c].sent >= Pieces * n /\ nt[c].cl \in {"open", "half"} /\ c \in Readers
     /\ \A m \in 1..n : Scripts[c][m].k = "fetch" => Scripts[c][m].wait < Forever)
    ~> (nt[c].got >= n \/ Told \/ nt[c].cl \notin {"open", "half"})

\* a waiting fetch is answered once there is a record
Wakes == \A c \in Cs :
  (hd[c].pc \in {"scan", "nap"} /\ \E j \in DOMAIN hd[c].ans : hd[c].ans[j].kp /\ hd[c].ans[j].off < End(s, hd[c].ans[j].t, hd[c].ans[j].q))
    ~> (hd[c].pc \notin {"scan", "nap"})

\* after the client is gone, the handler goes
Returned == \A c \in Cs :
  (nt[c].cl \in {"closed", "reset", "half"} /\ (\A n \in DOMAIN Scripts[c] : Scripts[c][n].k = "fetch" => Scripts[c][n].wait < Forever) /\ (nt[c].cl = "half" => c \in Readers))
     ~> Gone(c)

\* stopping terminates, whatever the clients do
Terminates == \A p \in Callers : (api[p].pc = "w1" /\ sv.stopped) ~> (api[p].pc # "w1")
Closes == \A c \in Cs : (sv.cancelled /\ ~Gone(c)) ~> Gone(c)
============================================================================
