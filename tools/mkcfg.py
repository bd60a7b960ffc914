#!/usr/bin/env python3
"""Writes the configurations of the design model (spec/Server_*.cfg)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAFE = "Grows Patient Answered_ NoService"
INV = "StoreValid Stay Linear Floor InOrder Released"
D = dict(plans="PlansOne", scripts="ScriptsLife", life="Up", pieces=1, room=2, readers="AllClients", faults="None",
         ghosts=False, bugs="None", props=SAFE, inv=INV, spec="Spec")
C = {}


def c(name, **kw):
    C[name] = {**D, **kw}


# ---- safety -------------------------------------------------------------
c("post", plans="PlansPost", scripts="ScriptsPost", ghosts=True)
c("post2", plans="PlansPost2", scripts="ScriptsPost2", ghosts=True)
c("fetch", plans="PlansFetch", scripts="ScriptsFetch", ghosts=True)
c("fetch2", plans="PlansFetch2", scripts="ScriptsFetch2", ghosts=True)
c("commit", plans="PlansCommit", scripts="ScriptsCommit", ghosts=True)
c("commit2", plans="PlansCommit", scripts="ScriptsCommit2", ghosts=True)
c("set", plans="PlansSet", scripts="ScriptsSet", ghosts=True)
c("pieces", scripts="ScriptsPieces", pieces=3, ghosts=True, faults="AllFaults")
c("stop", life="LifeStop", room=1, readers="Reader1")
c("two", scripts="ScriptsLife1", life="LifeTwo", pieces=2, faults="AllFaults")
c("both", scripts="ScriptsLife1", life="LifeBoth")
c("before", scripts="ScriptsLife1", life="LifeBefore")
c("restart", life="LifeRestart")
c("restart2", scripts="ScriptsRestart", life="LifeRestart")
c("fin1", plans="PlansNone", scripts="ScriptsFin1", life="LifeFin1")
c("finish", life="LifeFinish")
c("fault", scripts="ScriptsFault", faults="AllFaults")
# small ones for every run
c("q_post", plans="PlansQPost", scripts="ScriptsQPost", ghosts=True)
c("q_meta", plans="PlansQPost", scripts="ScriptsQMeta", ghosts=True)
c("q_fetch", plans="PlansQFetch", scripts="ScriptsQFetch", ghosts=True)
c("q_fetch2", plans="PlansQFetch", scripts="ScriptsQFetch2", ghosts=True)
c("q_commit", plans="PlansQCommit", scripts="ScriptsQCommit", ghosts=True)
c("q_set", plans="PlansQSet", scripts="ScriptsSet", ghosts=True)
c("q_pieces", plans="PlansNone", scripts="ScriptsPieces", pieces=2, ghosts=True, faults="AllFaults")
c("q_fault", plans="PlansOne", scripts="ScriptsQFault", faults="AllFaults")
c("lose", plans="PlansMk", scripts="ScriptsLose", life="LifeLose")
c("wake", scripts="ScriptsL1")
c("held", plans="PlansMk", scripts="ScriptsHeld", life="LifeHeld")
# ---- liveness, on smaller instances ---------------------------------------
LIFE = "Terminates Closes Wakes Answers_"
c("live_stop", spec="FairSpec", scripts="ScriptsL2", life="LifeOnce", room=1, readers="Reader1", inv="", props=LIFE)
c("live_both", spec="FairSpec", scripts="ScriptsL1", life="LifeBoth", inv="", props=LIFE)
c("live_two", spec="FairSpec", scripts="ScriptsL1", life="LifeTwo", pieces=2, faults="AllFaults", inv="", props=LIFE + " Returned")
c("live_before", spec="FairSpec", scripts="ScriptsL1", life="LifeBefore", inv="", props=LIFE)
c("live_restart", spec="FairSpec", scripts="ScriptsL1", life="LifeRestart", inv="", props=LIFE)
c("live_finish", spec="FairSpec", scripts="ScriptsL1", life="LifeFinish", inv="", props=LIFE)
c("live_fault", spec="FairSpec", scripts="ScriptsL2", faults="AllFaults", inv="", props="Returned Answers_ Wakes")
c("live_fetch", spec="FairSpec", plans="PlansFetchL", scripts="ScriptsFetchL", inv="", props="Returned Answers_ Wakes")
c("live_wake", spec="FairSpec", scripts="ScriptsL1", inv="", props="Returned Answers_ Wakes")
c("live_pipe", spec="FairSpec", plans="PlansNone", scripts="ScriptsPipe", faults="AllFaults", pieces=2, inv="", props="Returned Answers_")
c("live_stuck", spec="FairSpec", plans="PlansNone", scripts="ScriptsPipe", life="LifeOnce", room=1, readers="Nobody", inv="", props=LIFE)
# ---- deliberate mistakes: one of the properties must fail ------------------
for name, base, bug in [("create", "post", "BugCreate"), ("commit", "q_commit", "BugCommit"), ("empty", "fetch", "BugEmpty"),
                        ("finish", "finish", "BugFinish"), ("serve", "finish", "BugServe"), ("restart", "restart2", "BugRestart"),
                        ("pipe", "live_pipe", "BugPipe"), ("wait", "both", "BugWait"), ("deadline", "live_stuck", "BugDeadline"),
                        ("eof", "live_pipe", "BugEof"), ("stale", "live_wake", "BugStale")]:
    if base not in C:
        continue
    C["bug_" + name] = {**C[base], "bugs": bug}

# ---- behaviours as the harness would see them, for the trace acceptor ---------
for name in ("post", "post2", "fetch", "fetch2", "commit", "commit2", "set", "pieces", "stop", "two", "both", "before", "restart", "restart2", "finish", "fin1", "fault", "lose", "wake", "held"):
    C["obs_" + name] = {**C[name], "ghosts": False, "record": True, "inv": "PrintObs", "props": ""}
for name, base, bug in [("create", "post2", "BugCreate"), ("commit", "commit2", "BugCommit"), ("empty", "wake", "BugEmpty"), ("drop", "held", "BugFinish"),
                        ("lose", "lose", "BugRestart"), ("pipe", "fault", "BugPipe"), ("hang", "stop", "BugDeadline"),
                        ("eof", "fault", "BugEof"), ("stale", "wake", "BugStale"), ("serve", "finish", "BugServe")]:
    C["obs_bug_" + name] = {**C[base], "ghosts": False, "record": True, "inv": "PrintObs", "props": "", "bugs": bug}

for name, x in C.items():
    t = f"SPECIFICATION {x['spec']}\nCONSTANTS\n"
    for k in ("plans", "scripts", "life"):
        t += f"  {k.capitalize()} <- {x[k]}\n"
    t += f"  Pieces = {x['pieces']}\n  Room = {x['room']}\n  Readers <- {x['readers']}\n  Faults <- {x['faults']}\n"
    t += f"  Ghosts = {str(x['ghosts']).upper()}\n  Record = {str(x.get('record', False)).upper()}\n  Bugs <- {x['bugs']}\n"
    if x["inv"]:
        t += "INVARIANTS " + x["inv"] + "\n"
    if x["props"]:
        t += "PROPERTIES " + x["props"] + "\n"
    t += "CHECK_DEADLOCK FALSE\n"
    open(os.path.join(HERE, "spec", f"Server_{name}.cfg"), "w").write(t)
