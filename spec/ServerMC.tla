----------------------------- MODULE ServerMC -----------------------------
(* Instances of the design model that TLC checks: who does what. *)
EXTENDS Server, Json

None == {}
Up == [a |-> <<"start", "up">>]
All == DOMAIN Scripts
AllClients == {"c1", "c2", "c3", "late"}

(* posts that are first to a topic and partition, read meanwhile *)
PlansPost == [p |-> << PostOp("t", 0, "r1", 40), PostOp("t", 0, "r2", 50) >>, q |-> << PostOp("t", 0, "r3", 40), MkOp("t", 1) >>]
ScriptsPost == [c1 |-> << FetchRq(0, << FT("t", 0, 0, 90) >>), ListRq(<< LT("t", 0), LT("t", 1) >>) >>, c2 |-> << MetaRq, SyncRq >>]

PlansPost2 == [p |-> << PostOp("t", 0, "r1", 40), PostOp("t", 1, "r2", 50) >>, q |-> << MkOp("t", 1), PostOp("t", 0, "r3", 40) >>, r |-> << PostOp("t", 0, "r4", 40) >>]
ScriptsPost2 == [c1 |-> << FetchRq(0, << FT("t", 0, 0, 90), FT("t", 1, 0, 90) >>), ListRq(<< LT("t", 0) >>) >>]

(* fetches over several partitions while records arrive *)
PlansFetch == [p |-> << MkOp("t", 0), PostOp("t", 1, "r1", 40), PostOp("t", 0, "r2", 60), PostOp("t", 1, "r3", 50) >>]
ScriptsFetch == [c1 |-> << FetchRq(0, << FT("t", 0, 0, 60), FT("t", 1, 0, 90), FT("u", 0, 0, 90) >>), FetchRq(0, << FT("t", 1, 1, 49), FT("t", 0, 0 - 1, 90) >>) >>,
                 c2 |-> << FetchRq(Forever, << FT("t", 0, 0, 60), FT("t", 1, 1, 60) >>) >>]

PlansFetch2 == [p |-> << MkOp("t", 0), PostOp("t", 1, "r1", 40), PostOp("t", 0, "r2", 60) >>, q |-> << PostOp("t", 0, "r3", 60), PostOp("t", 1, "r4", 50) >>]
ScriptsFetch2 == [c1 |-> << FetchRq(Forever, << FT("t", 0, 1, 60), FT("t", 1, 0, 90) >>) >>, c2 |-> << FetchRq(0, << FT("t", 0, 0, 125) >>), FetchRq(0, << FT("t", 0, 1, 125) >>) >>]
PlansFetchL == [p |-> << MkOp("t", 0), PostOp("t", 1, "r1", 40), PostOp("t", 0, "r2", 60) >>]
ScriptsFetchL == [c1 |-> << FetchRq(Forever, << FT("t", 0, 0, 60), FT("t", 1, 1, 60) >>) >>, c2 |-> << FetchRq(50, << FT("t", 0, 1, 60) >>), Rq("apiv") >>]

(* commits that overlap *)
PlansCommit == [p |-> << MkOp("t", 0), MkOp("t", 1) >>]
ScriptsCommit == [c1 |-> << CommitRq("g", << CT("t", 0, 2), CT("t", 1, 1) >>), OFetchRq("g", << TQ("t", 0), TQ("t", 1) >>) >>,
                  c2 |-> << CommitRq("g", << CT("t", 0, 1), CT("u", 0, 1) >>), CommitRq("g", << CT("t", 0, 3) >>) >>,
                  c3 |-> << OFetchRq("g", << TQ("t", 0) >>) >>]
ScriptsCommit2 == [c1 |-> << CommitRq("g", << CT("t", 0, 2), CT("t", 1, 1) >>) >>, c2 |-> << CommitRq("g", << CT("t", 0, 1), CT("t", 1, 2) >>) >>,
                   c3 |-> << CommitRq("g", << CT("t", 0, 3) >>), OFetchRq("g", << TQ("t", 0), TQ("t", 1) >>) >>]
PlansSet == [p |-> << MkOp("t", 0), SetOp("g", "t", 0, 3), SetOp("g", "t", 0, 1), SetOp("g", "u", 0, 1) >>]
ScriptsSet == [c1 |-> << CommitRq("g", << CT("t", 0, 2) >>), OFetchRq("g", << TQ("t", 0) >>) >>, c2 |-> << OFetchRq("g", << TQ("t", 0), TQ("u", 0) >>) >>]

(* the life cycle, with clients in every state *)
LifeStop == [a |-> << "start", "stop", "wait", "start", "stop", "wait" >>]
LifeTwo == [a |-> << "start", "stop", "wait" >>, b |-> << "wait" >>]
LifeBoth == [a |-> << "start", "up", "stop", "wait" >>, b |-> << "stop", "stop" >>]
LifeFinish == [a |-> << "finish", "start", "up", "finish", "stop", "wait", "finish" >>]
LifeRestart == [a |-> << "start", "restart", "finish", "restart" >>]
LifeBefore == [a |-> << "stop", "wait", "stop", "start", "finish", "stop", "stop", "wait" >>]
PlansOne == [p |-> << MkOp("t", 0), PostOp("t", 0, "r1", 40) >>]
PlansNone == <<>>
ScriptsLife == [c1 |-> << FetchRq(Forever, << FT("t", 0, 0, 60) >>), CommitRq("g", << CT("t", 0, 1) >>) >>, c2 |-> << Rq("apiv"), Rq("apiv") >>]
ScriptsLife1 == [c1 |-> << FetchRq(Forever, << FT("t", 0, 0, 60) >>), CommitRq("g", << CT("t", 0, 1) >>), Rq("apiv") >>]
LifeOnce == [a |-> << "start", "stop", "wait" >>]
ScriptsL1 == [c1 |-> << FetchRq(Forever, << FT("t", 0, 0, 60) >>), Rq("apiv") >>]
ScriptsL2 == [c1 |-> << FetchRq(50, << FT("t", 0, 0, 60) >>), Rq("apiv") >>, c2 |-> << Rq("apiv"), Rq("apiv") >>]
ScriptsLose == [c1 |-> << CommitRq("g", << CT("t", 0, 1) >>) >>, late |-> << OFetchRq("g", << TQ("t", 0) >>) >>]
PlansMk == [p |-> << MkOp("t", 0) >>]
LifeLose == [a |-> << "start", "up", "served", "restart", "up" >>]
ScriptsHeld == [c1 |-> << Rq("apiv"), FetchRq(Forever, << FT("t", 0, 0, 60) >>) >>]
LifeHeld == [a |-> << "start", "up", "served", "finish", "stop", "wait" >>]
ScriptsPipe == [c1 |-> << Rq("apiv"), Rq("apiv") >>]
Nobody == {}
ScriptsPieces == [c1 |-> << CommitRq("g", << CT("t", 0, 1) >>), FetchRq(0, << FT("t", 0, 0, 60) >>), Rq("apiv") >>]
ScriptsRestart == [c1 |-> << CommitRq("g", << CT("t", 0, 1) >>) >>, c2 |-> << OFetchRq("g", << TQ("t", 0) >>), OFetchRq("g", << TQ("t", 0) >>) >>]
LifeFin1 == [a |-> << "start", "up", "finish", "stop", "wait" >>]
ScriptsFin1 == [c1 |-> << FetchRq(Forever, << FT("t", 0, 0, 60) >>), Rq("apiv") >>]
Reader1 == {"c1"}

(* clients that fail *)
ScriptsFault == [c1 |-> << Rq("apiv"), FetchRq(50, << FT("t", 0, 0, 60) >>), Rq("apiv") >>, c2 |-> << CommitRq("g", << CT("t", 0, 1) >>), OFetchRq("g", << TQ("t", 0) >>) >>]
AllFaults == {"fin", "rst", "half"}

BugCreate == {"create-race"}
BugCommit == {"commit-race"}
BugEmpty == {"early-empty"}
BugDeadline == {"no-deadline"}
BugFinish == {"finish-drops"}
BugServe == {"serve-after-finish"}
BugRestart == {"restart-loses"}
BugPipe == {"pipelined-drop"}
BugWait == {"wait-early"}
BugEof == {"eof-spins"}
BugStale == {"stale-wait"}

(* small instances *)
PlansQPost == [p |-> << PostOp("t", 0, "r1", 40) >>, q |-> << PostOp("t", 0, "r3", 40) >>]
ScriptsQPost == [c1 |-> << FetchRq(0, << FT("t", 0, 0, 90) >>), ListRq(<< LT("t", 0) >>) >>]
ScriptsQMeta == [c1 |-> << MetaRq, SyncRq >>]
PlansQFetch == [p |-> << MkOp("t", 0), PostOp("t", 1, "r1", 40), PostOp("t", 0, "r2", 60) >>]
ScriptsQFetch == [c1 |-> << FetchRq(0, << FT("t", 0, 0, 60), FT("t", 1, 0, 90), FT("u", 0, 0, 90) >>), FetchRq(0, << FT("t", 1, 0, 39), FT("t", 0, 0 - 1, 90) >>) >>]
ScriptsQFetch2 == [c1 |-> << FetchRq(Forever, << FT("t", 0, 0, 60), FT("t", 1, 1, 60) >>) >>, c2 |-> << FetchRq(0, << FT("t", 0, 0, 59) >>), FetchRq(50, << FT("t", 1, 0, 125) >>) >>]
PlansQCommit == [p |-> << MkOp("t", 0) >>]
ScriptsQCommit == [c1 |-> << CommitRq("g", << CT("t", 0, 2), CT("u", 0, 1) >>), OFetchRq("g", << TQ("t", 0) >>) >>,
                   c2 |-> << CommitRq("g", << CT("t", 0, 3) >>), OFetchRq("g", << TQ("u", 0), TQ("t", 0) >>) >>]
PlansQSet == [p |-> << MkOp("t", 0), SetOp("g", "t", 0, 3), SetOp("g", "t", 0, 1) >>]
ScriptsQFault == [c1 |-> << Rq("apiv"), FetchRq(50, << FT("t", 0, 0, 60) >>) >>, c2 |-> << CommitRq("g", << CT("t", 0, 1) >>) >>]

(* Histories to be judged by the trace acceptor: at its end (nothing can     *)
(* happen any more, or it is long) a behaviour's observations are printed.   *)
PrintObs == (Record /\ (~ENABLED Next \/ TLCGet("level") >= 390)) => PrintT("VRF-OBS " \o ToJson(obs))
============================================================================
