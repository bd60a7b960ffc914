------------------------------ MODULE GenNet ------------------------------
(***************************************************************************)
(* Behaviours of the life cycle and of connections, generated for replay   *)
(* on the real server.  The state is the server as its users see it (what  *)
(* phase it is in), the state of every connection (how far a request of it *)
(* has come) and how much is stored; hist is the sequence of operations    *)
(* that led there, hidden by the view.  TLC reaches every state once by a  *)
(* shortest history and takes every operation from it, so every operation  *)
(* is replayed in every combination of phase, connection states and data.  *)
(* Only orders that the API allows are generated (a server that was        *)
(* started is not started again before it has terminated).                 *)
(*                                                                         *)
(* A connection x:                                                         *)
(*   "none"  not made          "open"  idle           "part"  half of a    *)
(*   request is sent           "held"  a fetch is waiting                  *)
(*   "queue" a fetch is waiting and requests are behind it                 *)
(*   "half"  as "held", then the client closed its sending side            *)
(*   "stuck" answers it does not read are pending     "gone"  closed       *)
(*   "dead"  connected, but to a server that no longer serves              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Conns, MaxData, MaxLife, NetOps

Some == {1}
Two == {1, 2}
Three == {1, 2, 3}
LifeOps == {"start", "stop", "wait", "restart", "finish", "post"}
StopOps == LifeOps \cup {"dial", "ask", "hold", "part", "queue", "half", "stuck"}
FaultOps == {"start", "post", "dial", "ask", "hold", "part", "rest", "queue", "half", "stuck", "fin", "rst"}
MostOps == StopOps \cup {"rest", "fin", "rst", "commit", "set"}

VARIABLES
  phase,    \* "down" | "up" | "finishing" | "stopping"
  ran,      \* whether it was ever started
  link,     \* connection -> state
  amount,   \* records stored
  offset,   \* committed offset, -1 if there is no partition yet
  life,     \* number of life cycle operations so far
  hist
vars == <<phase, ran, link, amount, offset, life, hist>>
Sight == <<phase, ran, link, amount, offset, life>>

Init ==
  /\ phase = "down" /\ ran = FALSE
  /\ link = [x \in Conns |-> "none"]
  /\ amount = 0 /\ offset = 0 /\ life = 0
  /\ hist = <<>>

Log(o) == hist' = Append(hist, o)
Lower(lk) == [x \in Conns |-> IF lk[x] \in {"none", "gone"} THEN lk[x] ELSE "dead"]

\* the operations of the API
Start ==
  /\ "start" \in NetOps /\ phase = "down"
  /\ phase' = "up" /\ ran' = TRUE /\ link' = Lower(link) /\ life' = life + 1
  /\ UNCHANGED <<amount, offset>> /\ Log([o |-> "start"])

Stop ==
  /\ "stop" \in NetOps
  /\ phase' = IF phase = "down" THEN "down" ELSE "stopping"
  /\ link' = IF phase = "down" THEN link ELSE Lower(link)
  /\ life' = life + 1
  /\ UNCHANGED <<ran, amount, offset>> /\ Log([o |-> "stop"])

Wait ==
  /\ "wait" \in NetOps /\ phase \in {"down", "stopping"}
  /\ phase' = "down" /\ link' = Lower(link) /\ life' = life + 1
  /\ UNCHANGED <<ran, amount, offset>> /\ Log([o |-> "wait"])

Restart ==
  /\ "restart" \in NetOps
  /\ phase' = "up" /\ ran' = TRUE /\ link' = Lower(link) /\ life' = life + 1
  /\ UNCHANGED <<amount, offset>> /\ Log([o |-> "restart"])

Finish ==
  /\ "finish" \in NetOps
  /\ phase' = IF phase = "up" THEN "finishing" ELSE phase
  /\ link' = IF phase = "up" THEN Lower(link) ELSE link
  /\ life' = life + 1
  /\ UNCHANGED <<ran, amount, offset>> /\ Log([o |-> "finish"])

\* a record wakes every waiting fetch
Post ==
  /\ "post" \in NetOps /\ amount < MaxData
  /\ amount' = amount + 1
  /\ link' = [x \in Conns |-> IF link[x] \in {"held", "queue"} THEN "open" ELSE IF link[x] = "half" THEN "gone" ELSE link[x]]
  /\ UNCHANGED <<phase, ran, offset, life>>
  /\ Log([o |-> "post", woken |-> { x \in Conns : link[x] \in {"held", "queue"} }, ended |-> { x \in Conns : link[x] = "half" }])

SetOffset ==
  /\ "set" \in NetOps /\ amount > 0
  /\ offset' = (offset + 2) % 3
  /\ UNCHANGED <<phase, ran, link, amount, life>> /\ Log([o |-> "set", v |-> offset'])

\* the operations of clients
Dial(x) ==
  /\ "dial" \in NetOps /\ link[x] \in {"none", "gone"}
  /\ link' = [link EXCEPT ![x] = IF phase = "up" THEN "open" ELSE "dead"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "dial", c |-> x, ok |-> phase = "up"])

Ask(x) ==
  /\ "ask" \in NetOps /\ link[x] = "open"
  /\ UNCHANGED <<phase, ran, link, amount, offset, life>> /\ Log([o |-> "ask", c |-> x])

Commit(x) ==
  /\ "commit" \in NetOps /\ link[x] = "open" /\ amount > 0 /\ offset < 2
  /\ offset' = offset + 1
  /\ UNCHANGED <<phase, ran, link, amount, life>> /\ Log([o |-> "commit", c |-> x, v |-> offset + 1])

Hold(x) ==
  /\ "hold" \in NetOps /\ link[x] = "open"
  /\ link' = [link EXCEPT ![x] = "held"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "hold", c |-> x])

Queue(x) ==
  /\ "queue" \in NetOps /\ link[x] = "held"
  /\ link' = [link EXCEPT ![x] = "queue"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "queue", c |-> x])

Part(x) ==
  /\ "part" \in NetOps /\ link[x] = "open"
  /\ link' = [link EXCEPT ![x] = "part"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "part", c |-> x])

Rest(x) ==
  /\ "rest" \in NetOps /\ link[x] = "part"
  /\ link' = [link EXCEPT ![x] = "open"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "rest", c |-> x])

Half(x) ==
  /\ "half" \in NetOps /\ link[x] \in {"held", "queue"}
  /\ link' = [link EXCEPT ![x] = "half"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "half", c |-> x])

\* asks for more than fits on the way and does not read it
Stuck(x) ==
  /\ "stuck" \in NetOps /\ link[x] \in {"none", "gone"} /\ phase = "up" /\ amount > 0
  /\ link' = [link EXCEPT ![x] = "stuck"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> "stuck", c |-> x])

Close(x, how) ==
  /\ how \in NetOps /\ link[x] \notin {"none", "gone"}
  /\ link' = [link EXCEPT ![x] = "gone"]
  /\ UNCHANGED <<phase, ran, amount, offset, life>> /\ Log([o |-> how, c |-> x, was |-> link[x]])

Next ==
  \/ life < MaxLife /\ (Start \/ Stop \/ Wait \/ Restart \/ Finish)
  \/ Post \/ SetOffset
  \/ \E x \in Conns : Dial(x) \/ Ask(x) \/ Commit(x) \/ Hold(x) \/ Queue(x) \/ Part(x) \/ Rest(x) \/ Half(x) \/ Stuck(x)
                      \/ Close(x, "fin") \/ Close(x, "rst")

Spec == Init /\ [][Next]_vars

\* who is served
Served == \A x \in Conns : link[x] \in {"open", "part", "held", "queue", "half", "stuck"} => phase = "up"
Kept == [][amount' >= amount]_vars

Sym == Permutations(Conns)
Emit == PrintT("VRF-GEN " \o ToJson(hist'))
============================================================================
