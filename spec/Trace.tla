------------------------------ MODULE Trace ------------------------------
(***************************************************************************)
(* Trace acceptor.  Reads traces recorded from the real server (API calls  *)
(* and returns, connections, requests as their last byte is about to be    *)
(* sent, responses as they have been read completely, connection ends,     *)
(* resource counts, hangs, crashes) and decides whether each is a          *)
(* behaviour of the specification: whether the calls and requests took     *)
(* effect at instants between their start and their end such that every    *)
(* response is what Store says it must be at such an instant, in the order *)
(* of its connection, neither too early nor too late, and whether the      *)
(* server's life cycle and connections ended as they must.                 *)
(*                                                                         *)
(* Steps: the next event of the trace, or a silent step of a pending call  *)
(* or commit.  Reads take no step: every state a pending read could have   *)
(* seen is recorded in its marks as it passes (Mark).  A request event     *)
(* carries its own eventual response (a prophecy), so a wrong path dies at *)
(* once.  Acceptance: register tr of TLC holds the highest position        *)
(* reached in trace tr; a trace is accepted if it is past its last event.  *)
(***************************************************************************)
EXTENDS Answers, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VRF_TRACES)
NT == Len(Traces)

VARIABLES
  tr,   \* which trace
  l,    \* position of the next event
  s,    \* the store
  cn,   \* connections
  ca,   \* pending calls
  lf    \* life cycle

vars == <<tr, l, s, cn, ca, lf>>

Ev(i) == Traces[tr].ev[i]
NEv == Len(Traces[tr].ev)
Judged(x) == \E i \in DOMAIN Traces[tr].judge : Traces[tr].judge[i] = x
Slack == Traces[tr].slack
Never == 999999999

\* function helpers
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(************************ requests *****************************************)
\* An outstanding request: i = position of its send event, ok = components of
\* its answer already justified, due = when its answer was certainly possible,
\* ex = fetch targets that existed when it was sent, pr = a record was there.
Req(r)  == Ev(r.i).req
Resp(r) == Ev(r.i).resp
Answered(r) == Resp(r).k # "none"

JudgedReq(q) == Judged(q.k)
\* responses of kinds that this trace does not judge need no justification
\* (a commit always is, because it changes the store)
WantComps(r) ==
  IF ~Answered(r) \/ Resp(r).k = "bad" THEN IF Req(r).k = "commit" THEN DOMAIN Req(r).tg ELSE {}
  ELSE IF Req(r).k = "commit" THEN IF SameShape(Req(r), Resp(r)) THEN DOMAIN Req(r).tg ELSE {}
  ELSE IF ~JudgedReq(Req(r)) THEN {}
  ELSE IF Req(r).k \in {"fetch", "list"} /\ ~SameShape(Req(r), Resp(r)) THEN {}
  ELSE Comps(Req(r), Resp(r))

Complete(r) == r.ok = WantComps(r)

MarkOne(st, r) ==
  LET q == Req(r)
      w == WantComps(r) \ r.ok
  IN IF q.k = "commit" THEN
       \* only refusals are reads; the first component not yet done is next
       IF w = {} THEN r
       ELSE LET j == CHOOSE x \in w : \A y \in w : x <= y
                refused == IF Answered(r) /\ Resp(r).k # "bad" THEN CompOK(st, q, Resp(r), j)
                           ELSE ~HasPart(st, q.tg[j].t, q.tg[j].q)
            IN IF refused THEN [r EXCEPT !.ok = @ \cup {j}] ELSE r
     ELSE [r EXCEPT
             !.ok = @ \cup { j \in w : CompOK(st, q, Resp(r), j) },
             !.pr = @ \/ (q.k = "fetch" /\ \E j \in DOMAIN q.tg :
                        FetchAns(st, q.tg[j].t, q.tg[j].q, q.tg[j].off, q.tg[j].max).there) ]

\* requests of a connection are processed one after the other: mark the first
\* incomplete one and, once complete, the next
RECURSIVE MarkQ(_, _, _)
MarkQ(st, q, i) ==
  IF i > Len(q) THEN q
  ELSE LET r == MarkOne(st, q[i])
           q2 == [q EXCEPT ![i] = r]
       IN IF r = q[i] /\ ~Complete(r) THEN q2
          ELSE IF Complete(r) THEN MarkQ(st, q2, i + 1) ELSE MarkQ(st, q2, i)

Mark(st, c) == [k \in DOMAIN c |-> [c[k] EXCEPT !.q = MarkQ(st, c[k].q, 1)]]

(************************ calls ********************************************)
\* steps of a call that change nothing are taken with the step before
RECURSIVE Norm(_, _)
Norm(st, c) ==
  LET e == Ev(c.i) IN
  CASE e.k = "post" /\ c.n = 0 /\ HasTopic(st, e.tp) -> Norm(st, [c EXCEPT !.n = 1])
    [] e.k = "post" /\ c.n = 1 /\ HasPart(st, e.tp, e.q) -> [c EXCEPT !.n = 2]
    [] e.k = "mk" /\ c.n < 2 * Len(e.tps) /\ c.n % 2 = 0 /\ HasTopic(st, e.tps[(c.n \div 2) + 1]) ->
         Norm(st, [c EXCEPT !.n = @ + 1])
    [] e.k = "mk" /\ c.n < 2 * Len(e.tps) /\ c.n % 2 = 1 /\ HasPart(st, e.tps[(c.n \div 2) + 1], e.q) ->
         Norm(st, [c EXCEPT !.n = @ + 1])
    [] OTHER -> c

NSteps(e) == CASE e.k = "post" -> 3 [] e.k = "mk" -> 2 * Len(e.tps) [] e.k = "setoff" -> 1 [] OTHER -> 0
CallDone(c) == c.n = NSteps(Ev(c.i))

\* the store after the next step of call c, and whether that step is possible
CanStep(st, c) ==
  LET e == Ev(c.i) IN
  /\ ~CallDone(c)
  /\ (e.k = "post" /\ c.n = 2) => (e.at = 0 \/ End(st, e.tp, e.q) + 1 = e.at)

StepStore(st, c) ==
  LET e == Ev(c.i) IN
  CASE e.k = "post" /\ c.n = 0 -> MkTopic(st, e.tp)
    [] e.k = "post" /\ c.n = 1 -> MkPart(st, e.tp, e.q)
    [] e.k = "post" /\ c.n = 2 -> AppendRec(st, e.tp, e.q, Rec(e.id, WireSize(e.kl, e.vl), e.ts))
    [] e.k = "mk" /\ c.n % 2 = 0 -> MkTopic(st, e.tps[(c.n \div 2) + 1])
    [] e.k = "mk" /\ c.n % 2 = 1 -> MkPart(st, e.tps[(c.n \div 2) + 1], e.q)
    [] e.k = "setoff" -> SetOff(st, e.g, e.tp, e.q, e.off)

NormAll(st, c) == [k \in DOMAIN c |-> Norm(st, c[k])]

(************************ silent steps *************************************)
PostStep(p) ==
  /\ CanStep(s, ca[p])
  /\ LET s2 == StepStore(s, ca[p]) IN
       /\ s' = s2
       /\ ca' = NormAll(s2, [ca EXCEPT ![p].n = @ + 1])
       /\ cn' = Mark(s2, cn)
  /\ UNCHANGED <<tr, l, lf>>

\* the first request of connection k that is not complete, if it is a commit
Front(k) == LET c == { i \in DOMAIN cn[k].q : ~Complete(cn[k].q[i]) }
            IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

CommitStep(k) ==
  LET i == Front(k) IN
  /\ i # 0
  /\ LET r == cn[k].q[i]
         q == Req(r)
         w == WantComps(r) \ r.ok
     IN /\ q.k = "commit"
        /\ LET j == CHOOSE x \in w : \A y \in w : x <= y
               x == q.tg[j]
           IN /\ (Answered(r) /\ Resp(r).k # "bad") => Resp(r).tg[j].err = ErrNone
              /\ HasPart(s, x.t, x.q)
              /\ LET s2 == CommitMax(s, q.g, x.t, x.q, x.off) IN
                   /\ s' = s2
                   /\ cn' = Mark(s2, [cn EXCEPT ![k].q[i].ok = @ \cup {j}])
  /\ UNCHANGED <<tr, l, ca, lf>>

(************************ events *******************************************)
E == Ev(l)
Next_ == l' = l + 1 /\ UNCHANGED tr
IsEv(x) == l <= NEv /\ E.e = x

\* a fetch certainly has something to return now
CertainNow(st, r) ==
  LET q == Req(r) IN
  q.k = "fetch" /\ \E j \in r.ex :
    FetchAns(st, q.tg[j].t, q.tg[j].q, q.tg[j].off, q.tg[j].max).there

SetDue(st, c, t) ==
  [k \in DOMAIN c |-> [c[k] EXCEPT !.q = [i \in DOMAIN @ |->
      IF @[i].due = Never /\ CertainNow(st, @[i]) THEN [@[i] EXCEPT !.due = t] ELSE @[i]]]]

NewCall(e) == [i |-> l, n |-> 0]

\* calls under way that may yet tell a server - one started meanwhile, too - to finish or stop
Tellers == \E p \in DOMAIN ca : Ev(ca[p].i).k \in {"stop", "finish", "wait", "restart"}

\* sr: the position where the last start or restart returned, Never while one is under way
LifeCall(e) ==
  CASE e.k = "start"   -> [lf EXCEPT !.st = "starting", !.maybe = Tellers, !.told = Never, !.down = FALSE, !.at = e.t, !.stopped = Tellers, !.sr = Never,
                                     !.dub = FALSE]
    [] e.k = "finish"  -> [lf EXCEPT !.maybe = (@ \/ lf.st # "none"), !.upc = FALSE, !.fin = TRUE]
    [] e.k = "stop"    -> [lf EXCEPT !.maybe = (@ \/ lf.st # "none"), !.upc = FALSE, !.stopped = TRUE]
    [] e.k = "restart" -> [lf EXCEPT !.maybe = TRUE, !.upc = FALSE, !.stopped = TRUE, !.down = FALSE, !.sr = Never, !.dub = Tellers]
    [] e.k = "wait" /\ lf.sr = Never -> [lf EXCEPT !.maybe = TRUE, !.stopped = TRUE]
    [] OTHER -> lf

\* who connects while a server is started may reach either
Dials(c) == [k \in DOMAIN c |-> IF c[k].st = "dial" THEN [c[k] EXCEPT !.ns = FALSE, !.dn = FALSE] ELSE c[k]]

TrCall ==
  /\ IsEv("call")
  /\ E.k = "post" => E.lo <= E.ts /\ E.ts <= E.hi
  /\ lf' = LifeCall(E)
  /\ ca' = Put(ca, E.p, Norm(s, NewCall(E)))
  /\ cn' = LET d == IF E.k \in {"start", "restart"} THEN Dials(cn) ELSE cn IN
           IF lf.upc /\ ~lf'.upc THEN [k \in DOMAIN d |-> [d[k] EXCEPT !.uc = FALSE]] ELSE d
  /\ UNCHANGED s
  /\ Next_

\* the connections are over - those that may have reached the next server (after
\* position i) may go on
AllClosed(c, t, i) ==
  [k \in DOMAIN c |-> IF c[k].st = "dial" \/ c[k].oi > i THEN [c[k] EXCEPT !.werr = TRUE]
                      ELSE [c[k] EXCEPT !.over = IF @ = Never THEN t ELSE @]]

\* i: the position of the call.  What was called before the present server's start
\* had returned may have been about the one before.
LifeRet(e, i) ==
  CASE e.k = "start" -> [lf EXCEPT !.sr = l]
    [] e.k \in {"finish", "stop", "wait"} /\ lf.sr = Never -> [lf EXCEPT !.dub = TRUE, !.maybe = TRUE]
    [] e.k \in {"finish", "stop", "wait"} /\ i < lf.sr -> lf
    \* a stop that finds another under way does not wait for it
    [] e.k \in {"finish", "stop"} ->
         IF lf.st = "none" \/ (e.k = "stop" /\ \E p \in DOMAIN ca \ {e.p} : Ev(ca[p].i).k \in {"stop", "restart", "wait"}) THEN lf
         ELSE [lf EXCEPT !.told = IF @ = Never THEN e.t ELSE @, !.lsn = IF e.k = "stop" THEN FALSE ELSE @]
    [] e.k = "wait" -> [lf EXCEPT !.st = "none", !.down = TRUE, !.upc = FALSE, !.lsn = FALSE, !.stopped = FALSE]
    [] e.k = "restart" ->
         LET m == lf.dub \/ \E p \in DOMAIN ca \ {e.p} : Ev(ca[p].i).k \in {"stop", "finish", "wait", "restart"} IN
         [lf EXCEPT !.st = "up", !.upc = ~m, !.maybe = m, !.told = Never, !.down = FALSE,
                    !.lsn = TRUE, !.stopped = m, !.fin = FALSE, !.sr = l]
    [] OTHER -> lf

\* WaitForTermination returns only if the server was told to stop (or never ran)
WaitOK(e) == e.k = "wait" => (lf.st = "none" \/ lf.stopped \/ ca[e.p].i < lf.sr)

TrRet ==
  /\ IsEv("ret")
  /\ E.p \in DOMAIN ca
  /\ CallDone(ca[E.p])
  /\ WaitOK(E)
  /\ (Judged("late") /\ E.k \in {"wait", "stop", "restart", "finish", "start"}) => E.t - Ev(ca[E.p].i).t <= Slack + 8000
  /\ lf' = LifeRet(E, ca[E.p].i)
  /\ ca' = Del(ca, E.p)
  /\ cn' = SetDue(s, IF lf.st # "none" /\ (E.k = "restart" \/ (E.k = "wait" /\ ca[E.p].i > lf.sr))
                       THEN AllClosed(cn, E.t, IF E.k = "restart" THEN ca[E.p].i ELSE l) ELSE cn, E.t)
  /\ UNCHANGED s
  /\ Next_

TrUp ==
  /\ IsEv("up")
  /\ lf.st # "none" /\ ~lf.down
  /\ lf' = IF lf.maybe THEN lf ELSE [lf EXCEPT !.st = "up", !.upc = TRUE, !.lsn = TRUE, !.fin = FALSE]
  /\ UNCHANGED <<s, cn, ca>>
  /\ Next_

\* ns: the connection is made after the server was told to finish or stop: no service
\* uc: the server has certainly been up ever since the client began to connect
TrDial ==
  /\ IsEv("dial")
  /\ cn' = Put(cn, E.c, [st |-> "dial", q |-> <<>>, base |-> 0, over |-> Never,
                         ns |-> lf.told # Never, dn |-> lf.down, uc |-> lf.upc, nr |-> E.nr, oi |-> 0, werr |-> FALSE, at |-> E.t,
                         lastn |-> 0])
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

TrOpen ==
  /\ IsEv("open")
  /\ IF E.ok
       THEN /\ Judged("net") => ~(cn[E.c].dn /\ lf.down)       \* the port must not accept after termination
            /\ cn' = [cn EXCEPT ![E.c].st = "open", ![E.c].oi = l, ![E.c].ns = @ /\ lf.told # Never]
       ELSE /\ ~cn[E.c].uc                                     \* a running server accepts
            /\ cn' = Del(cn, E.c)
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

TrSend ==
  /\ IsEv("send")
  /\ E.c \in DOMAIN cn
  /\ LET ex == IF E.req.k = "fetch"
                 THEN { j \in DOMAIN E.req.tg : HasPart(s, E.req.tg[j].t, E.req.tg[j].q) } ELSE {}
         r == [i |-> l, ok |-> {}, due |-> Never, ex |-> ex, pr |-> FALSE]
         c2 == [cn EXCEPT ![E.c].q = Append(@, r)]
     IN cn' = SetDue(s, Mark(s, c2), E.t)
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* nothing to return and no error
NothingIn(a) == \A j \in DOMAIN a.tg : a.tg[j].err = 0 /\ a.tg[j].recs = <<>>

HoldOK(c, r, t) ==
  LET q == Req(r) a == Resp(r) IN
  (q.k = "fetch" /\ NothingIn(a)) =>
     (t - Ev(r.i).t >= q.wait \/ lf.maybe \/ c.over # Never \/ r.pr)

\* when the answer was due at the latest
DueAt(c, r) ==
  LET q == Req(r)
      b == Max2(Ev(r.i).t, c.base)
  IN IF q.k = "fetch" THEN Max2(b, Min2(Min2(b + Max2(q.wait, 0), r.due), lf.told)) ELSE b

TrRecv ==
  /\ IsEv("recv")
  /\ E.n # -1
  /\ E.c \in DOMAIN cn
  /\ LET c == cn[E.c] IN
       /\ c.q # <<>>
       /\ LET r == Head(c.q) q == Req(r) a == Resp(r) IN
            /\ Ev(r.i).n = E.n
            /\ a.k # "bad"
            /\ q.k # "other"
            /\ Judged("net") => ~c.ns
            /\ Judged("net") => Ev(r.i).t <= c.over          \* not after the server is gone
            /\ (JudgedReq(q) \/ q.k = "commit") => StaticOK(q, a, Traces[tr].port)
            /\ Complete(r)
            /\ (Judged("hold") /\ Judged("fetch")) => HoldOK(c, r, E.t)
            /\ (Judged("late") /\ ~c.nr) => E.t <= DueAt(c, r) + Slack
            /\ Judged("wire") => a.wire = ""
            /\ cn' = [cn EXCEPT ![E.c].q = Tail(@), ![E.c].base = E.t]
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

TrClose ==
  /\ IsEv("close")
  /\ cn' = [cn EXCEPT ![E.c].st = IF @ = "eof" THEN @ ELSE IF E.how = "half" THEN "half" ELSE "gone",
                      ![E.c].at = E.t]
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

TrWerr ==
  /\ IsEv("werr")
  /\ cn' = [cn EXCEPT ![E.c].werr = TRUE]
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

HasOther(c) == \E i \in DOMAIN c.q : Req(c.q[i]).k = "other"

\* was the head request being processed for certain when the server was told?
InProgress(c) == c.q # <<>> /\ lf.told # Never /\ lf.told - Max2(Ev(Head(c.q).i).t, c.base) >= 700

\* The server ends a connection only after the client did or after it was told
\* to finish or stop; what was being processed has been answered completely.
TrEof ==
  /\ IsEv("eof")
  /\ E.c \in DOMAIN cn
  /\ LET c == cn[E.c] IN
       /\ Judged("net") =>
            /\ c.st = "half" \/ lf.maybe \/ c.over # Never \/ c.ns \/ c.werr \/ HasOther(c)
            /\ (c.st = "half" /\ ~lf.maybe /\ c.over = Never /\ ~HasOther(c)) => c.q = <<>>
            /\ (lf.maybe /\ InProgress(c) /\ ~c.nr) => (c.ns \/ HasOther(c))
            \* (the rest of an answer is lost if the server closes while more from the client is unread)
            /\ E.why = "partial" => c.nr \/ ((lf.maybe \/ c.over # Never) /\ Len(c.q) >= 2)
       /\ cn' = [cn EXCEPT ![E.c].st = "eof", ![E.c].q = <<>>]
  /\ UNCHANGED <<s, ca, lf>>
  /\ Next_

(*********** what was due and did not happen *******************************)
Overdue(t) ==
  \/ \E p \in DOMAIN ca : t - Ev(ca[p].i).t >= 8000 /\ (Ev(ca[p].i).k = "wait" => lf.st = "none" \/ lf.stopped)
  \/ \E k \in DOMAIN cn : LET c == cn[k] IN
       \/ /\ c.st \in {"open", "half"} /\ c.q # <<>> /\ ~c.ns /\ ~c.werr /\ ~c.nr
          /\ ~HasOther(c)
          /\ lf.told = Never /\ c.over = Never
          /\ t >= DueAt(c, Head(c.q)) + Slack
       \/ c.st \in {"open", "half"} /\ ~c.nr /\ lf.told # Never /\ t - lf.told >= 8000
       \/ c.st \in {"open", "half"} /\ ~c.nr /\ c.over # Never /\ t - c.over >= 4000
       \/ c.st = "half" /\ c.q = <<>> /\ t - Max2(c.at, c.base) >= 8000
       \/ c.ns /\ c.st = "open" /\ t - c.at >= 8000
  \/ lf.st = "starting" /\ ~lf.maybe /\ t - lf.at >= 8000

TrQuiet ==
  /\ IsEv("quiet")
  /\ ~Overdue(E.t)
  /\ UNCHANGED <<s, cn, ca, lf>>
  /\ Next_

\* a crash is never allowed, except in the hands of a request the server does not serve
TrCrash ==
  /\ IsEv("crash")
  /\ \E k \in DOMAIN cn : HasOther(cn[k])
  /\ UNCHANGED <<s, cn, ca, lf>>
  /\ Next_

Live == { k \in DOMAIN cn : cn[k].st = "open" /\ cn[k].over = Never }

TrRes ==
  /\ IsEv("res")
  /\ Judged("res") =>
       LET n == Cardinality(Live) IN
       /\ E.socks = n + (IF lf.lsn THEN 1 ELSE 0)
       /\ E.reg = n
       /\ n = 0 => E.gor <= (IF lf.lsn THEN E.base ELSE 0)
  /\ UNCHANGED <<s, cn, ca, lf>>
  /\ Next_

TrNote ==
  /\ IsEv("note")
  /\ UNCHANGED <<s, cn, ca, lf>>
  /\ Next_

(************************ behaviour ****************************************)
Init ==
  /\ tr \in 1..NT
  /\ l = 1
  /\ s = EmptyStore
  /\ cn = <<>>
  /\ ca = <<>>
  /\ lf = [st |-> "none", maybe |-> FALSE, told |-> Never, down |-> TRUE, upc |-> FALSE, lsn |-> FALSE,
           stopped |-> FALSE, fin |-> FALSE, at |-> 0, sr |-> 0, dub |-> FALSE]

Open == TLCGet(tr) <= NEv      \* not yet accepted

Next ==
  /\ Open
  /\ \/ TrCall \/ TrRet \/ TrUp \/ TrDial \/ TrOpen \/ TrSend \/ TrRecv \/ TrClose \/ TrWerr \/ TrEof
     \/ TrQuiet \/ TrCrash \/ TrRes \/ TrNote
     \/ \E p \in DOMAIN ca : PostStep(p)
     \/ \E k \in DOMAIN cn : CommitStep(k)

Spec == Init /\ [][Next]_vars

\* registers: highest position reached, per trace
Reach == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))

TypeOK == StoreOK(s)
GrowOnly == [][LaterData(s, s')]_vars

Verdict(i) == [id |-> Traces[i].id, reached |-> TLCGet(i), len |-> Len(Traces[i].ev)]
Post == \A i \in 1..NT : PrintT("VRF-TRACE " \o ToJson(Verdict(i)))

ASSUME \A i \in 1..NT : TLCSet(i, 0)
============================================================================
