----------------------------- MODULE PresignGen -----------------------------
(* Histories of presign additions, hand-outs, announcements, database steps (released one at a time, with or without *)
(* an error) and crashes, for replay on the real manager, the real member selection and a real database.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Works, Sizes, Batches, Steps
VARIABLES hist, added, waiting
gvars == <<hist, added, waiting>>
Init == hist = <<>> /\ added = {} /\ waiting = 0
Log(h) == hist' = Append(hist, h)
Room == Len(hist) < N
Ids(w) == {w \o "-" \o ToString(i) : i \in 0..2}
AddW == /\ Room /\ \E w \in Works \ {x[1] : x \in added}, n \in Sizes, s \in {"abd", "bd", "bcd"} :
             Log([op |-> "add", w |-> w, n |-> n, pids |-> s]) /\ added' = added \cup {<<w, n>>}
        /\ waiting' = waiting + 1
Get == /\ Room /\ added # {} /\ waiting < 4
       /\ \E b \in Batches, s \in {"abcd", "abd", "bcd", "bd", "abc"} : Log([op |-> "get", batch |-> b, parties |-> s])
       /\ UNCHANGED added /\ waiting' = waiting + 1
Ann == /\ Room /\ added # {} /\ waiting < 4
       /\ \E x \in added, y \in added, k \in 1..2 :
            LET a == x[1] \o "-" \o ToString(RandomElement(0..(x[2] - 1)))
                b == y[1] \o "-" \o ToString(RandomElement(0..(y[2] - 1)))
            IN Log([op |-> "ann", ids |-> IF k = 1 \/ a = b THEN <<a>> ELSE <<a, b>>])
       /\ UNCHANGED added /\ waiting' = waiting + 1
\* Two leaders name the same presigns.
Step == /\ Room /\ waiting > 0
        /\ \E i \in 0..2, o \in Steps : Log([op |-> "step", i |-> i, out |-> o])
        /\ UNCHANGED <<added, waiting>>
Finish == Room /\ waiting > 0 /\ Log([op |-> "all"]) /\ waiting' = 0 /\ UNCHANGED added
CrashIt == Room /\ added # {} /\ RandomElement(1..4) = 1 /\ Log([op |-> "crash"]) /\ waiting' = 0 /\ UNCHANGED added
Next == AddW \/ Get \/ Ann \/ Step \/ Finish \/ CrashIt
Emit == Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
