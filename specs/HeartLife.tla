------------------------------- MODULE HeartLife ------------------------------
(* One node and its host.  SetKey calls (one at a time: they hold the lock of the start-up), the host's state, and signing *)
(* requests, each of which is checked, entered in the table of requests, and handed to the engine -- which may finish it   *)
(* before the call has returned.  When a work ends, its entry is taken out and answered.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sets, Reqs, Flips
VARIABLES key, listening, ready, lock, set, req, table, works, replies, flips
vars == <<key, listening, ready, lock, set, req, table, works, replies, flips>>
None == "none"
\* set[c]: [pc, kind]; kind: good1, good2 (right keys), bad (undecodable), down (right, but start-up fails).  req[r]: [pc, id, valid]
KeyOf(k) == IF k = "good2" THEN "k2" ELSE "k1"
Ids == {"a", "b"}
Init == /\ key = None /\ listening = FALSE /\ ready = FALSE /\ lock = None
        /\ set \in [Sets -> [pc : {"new"}, kind : {"good1", "good2", "bad", "down"}]]
        /\ req \in [Reqs -> [pc : {"new"}, id : Ids, valid : BOOLEAN]]
        /\ \E r \in Reqs : req[r].valid
        /\ table = [i \in Ids |-> None] /\ works = [r \in Reqs |-> "no"] /\ replies = <<>> /\ flips = 0

SetPc(c, p) == set' = [set EXCEPT ![c].pc = p]
Lock(c) == set[c].pc = "new" /\ lock = None /\ lock' = c /\ SetPc(c, "decode") /\ UNCHANGED <<key, listening, ready, req, table, works, replies, flips>>
Decode(c) == /\ set[c].pc = "decode"
             /\ IF set[c].kind = "bad" THEN SetPc(c, "refused") /\ lock' = None
                ELSE IF key # None THEN SetPc(c, IF key = KeyOf(set[c].kind) THEN "ok" ELSE "refused") /\ lock' = None
                ELSE SetPc(c, "start") /\ UNCHANGED lock
             /\ UNCHANGED <<key, listening, ready, req, table, works, replies, flips>>
StartUp(c) == /\ set[c].pc = "start"
              /\ IF set[c].kind = "down" THEN SetPc(c, "refused") /\ lock' = None /\ UNCHANGED listening
                 ELSE listening' = TRUE /\ SetPc(c, "install") /\ UNCHANGED lock
              /\ UNCHANGED <<key, ready, req, table, works, replies, flips>>
Install(c) == /\ set[c].pc = "install" /\ key' = KeyOf(set[c].kind) /\ lock' = None /\ SetPc(c, "ok")
              /\ UNCHANGED <<listening, ready, req, table, works, replies, flips>>
Host == flips < Flips /\ flips' = flips + 1 /\ ready' = ~ready /\ UNCHANGED <<key, listening, lock, set, req, table, works, replies>>

ReqPc(r, p) == req' = [req EXCEPT ![r].pc = p]
Check(r) == /\ req[r].pc = "new" /\ ReqPc(r, IF key # None /\ ready /\ req[r].valid THEN "record" ELSE "refused")
            /\ UNCHANGED <<key, listening, ready, lock, set, table, works, replies, flips>>
\* The entry is made before the engine gets the request; a request whose id has an entry is refused.
Record(r) == /\ req[r].pc = "record"
             /\ IF table[req[r].id] = None THEN table' = [table EXCEPT ![req[r].id] = r] /\ ReqPc(r, "add")
                ELSE ReqPc(r, "refused") /\ UNCHANGED table
             /\ UNCHANGED <<key, listening, ready, lock, set, works, replies, flips>>
HandOver(r) == /\ req[r].pc = "add"
               /\ \/ works' = [works EXCEPT ![r] = "runs"] /\ ReqPc(r, "added") /\ UNCHANGED table
                  \/ table' = [table EXCEPT ![req[r].id] = None] /\ ReqPc(r, "refused") /\ UNCHANGED works   \* the engine refuses it
               /\ UNCHANGED <<key, listening, ready, lock, set, replies, flips>>
Return(r) == req[r].pc = "added" /\ ReqPc(r, "accepted") /\ UNCHANGED <<key, listening, ready, lock, set, table, works, replies, flips>>
Finish(r) == /\ works[r] = "runs" /\ works' = [works EXCEPT ![r] = "over"]
             /\ LET e == table[req[r].id] IN e # None /\ replies' = Append(replies, e) /\ table' = [table EXCEPT ![req[r].id] = None]
             /\ UNCHANGED <<key, listening, ready, lock, set, req, flips>>
SetNext == \E c \in Sets : Lock(c) \/ Decode(c) \/ StartUp(c) \/ Install(c)
ReqNext == \E r \in Reqs : Check(r) \/ Record(r) \/ HandOver(r) \/ Return(r) \/ Finish(r)
Next == SetNext \/ ReqNext \/ Host
Spec == Init /\ [][Next]_vars /\ WF_vars(SetNext) /\ \A r \in Reqs : WF_vars(Check(r) \/ Record(r) \/ HandOver(r) \/ Return(r)) /\ WF_vars(Finish(r))

Count(r) == Cardinality({i \in 1..Len(replies) : replies[i] = r})
TypeOK == key \in {None, "k1", "k2"} /\ lock \in Sets \cup {None} /\ works \in [Reqs -> {"no", "runs", "over"}]
\* Every reply carries its own request, once.
OwnReply == \A r \in Reqs : Count(r) = (IF works[r] = "over" THEN 1 ELSE 0)
\* The entry of a work that runs is its own.
OwnEntry == \A r \in Reqs : works[r] = "runs" => table[req[r].id] = r
\* Nothing runs before the key was set; and then messages are listened to.
StartedFirst == (\E r \in Reqs : works[r] # "no") => key # None
Listens == key # None => listening
OneKey == [][key # None => key' = key]_key
\* A key that is refused changes nothing that is not there to be tried again.
FailedSets == (\A c \in Sets : set[c].pc \in {"new", "refused"}) => key = None
GoodWins == (\A c \in Sets : set[c].pc \in {"ok", "refused"}) /\ (\E c \in Sets : set[c].kind \in {"good1", "good2"}) => key # None
NoLeftOver == (\A r \in Reqs : req[r].pc \in {"refused", "accepted"} /\ works[r] # "runs") => \A i \in Ids : table[i] = None
CheckedReady == [][\A r \in Reqs : (req[r].pc = "new" /\ req'[r].pc = "record") => (ready /\ key # None /\ req[r].valid)]_vars
Answered == \A r \in Reqs : (req[r].pc = "added") ~> (Count(r) = 1)
Ends == \A c \in Sets : <>(set[c].pc \in {"ok", "refused"})
==============================================================================
