---------------------------------- MODULE Single -----------------------------
(* The service of a single node: it generates keys and signs by itself, and answers later than it accepts.  A new key of a *)
(* type takes the place of the one before; a signing reads the key once per message.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Types, MaxKeygens, MaxSigns, MaxMsgs
VARIABLES key,      \* type -> number of the current key, 0: none
          made,     \* number of keys so far
          gens,     \* accepted key generations: [type, st, key]
          signs,    \* accepted signings: [type, n, by, st]; by: the key of each signature, lo: the key when the request came
          refused,  \* refused requests: [type, had]
          reps      \* the replies, in their order: <<"key" or "sign", index>>
vars == <<key, made, gens, signs, refused, reps>>
Init == key = [t \in Types |-> 0] /\ made = 0 /\ gens = <<>> /\ signs = <<>> /\ refused = {} /\ reps = <<>>
KeyGen(t) == Len(gens) < MaxKeygens /\ gens' = Append(gens, [type |-> t, st |-> "wait", key |-> 0]) /\ UNCHANGED <<key, made, signs, refused, reps>>
Make(i) == /\ gens[i].st = "wait" /\ made' = made + 1 /\ key' = [key EXCEPT ![gens[i].type] = made + 1]
           /\ gens' = [gens EXCEPT ![i].st = "made", ![i].key = made + 1] /\ UNCHANGED <<signs, refused, reps>>
Report(i) == gens[i].st = "made" /\ gens' = [gens EXCEPT ![i].st = "told"] /\ reps' = Append(reps, <<"key", i>>) /\ UNCHANGED <<key, made, signs, refused>>
KeySign(t, n) == /\ Len(signs) < MaxSigns /\ Cardinality(refused) < 2
                 /\ IF key[t] = 0 THEN refused' = refused \cup {[type |-> t, keys |-> made]} /\ UNCHANGED signs
                    ELSE signs' = Append(signs, [type |-> t, n |-> n, by |-> <<>>, lo |-> key[t], st |-> "sign"]) /\ UNCHANGED refused
                 /\ UNCHANGED <<key, made, gens, reps>>
SignOne(i) == LET s == signs[i] IN
              /\ s.st = "sign" /\ UNCHANGED <<key, made, gens, refused, reps>>
              /\ signs' = [signs EXCEPT ![i].by = Append(@, key[s.type]), ![i].st = IF Len(s.by) + 1 = s.n THEN "wait" ELSE "sign"]
Reply(i) == signs[i].st = "wait" /\ signs' = [signs EXCEPT ![i].st = "told"] /\ reps' = Append(reps, <<"sign", i>>) /\ UNCHANGED <<key, made, gens, refused>>
AnyGen == \E t \in Types : KeyGen(t)
AnySign == \E t \in Types, n \in 1..MaxMsgs : KeySign(t, n)
AnyMake == \E i \in 1..Len(gens) : Make(i)
AnyReport == \E i \in 1..Len(gens) : Report(i)
AnySignOne == \E i \in 1..Len(signs) : SignOne(i)
AnyReply == \E i \in 1..Len(signs) : Reply(i)
Next == AnyGen \/ AnySign \/ AnyMake \/ AnyReport \/ AnySignOne \/ AnyReply
Spec == Init /\ [][Next]_vars /\ WF_vars(AnyMake) /\ WF_vars(AnyReport) /\ WF_vars(AnySignOne) /\ WF_vars(AnyReply)
\* Properties
KeysOf(t) == {gens[i].key : i \in {j \in 1..Len(gens) : gens[j].type = t /\ gens[j].st # "wait"}}
OwnKey == \A i \in 1..Len(signs) : \A m \in 1..Len(signs[i].by) : signs[i].by[m] \in KeysOf(signs[i].type) /\ signs[i].by[m] >= signs[i].lo
Complete == \A i \in 1..Len(signs) : signs[i].st \in {"wait", "told"} => Len(signs[i].by) = signs[i].n
Once == \A a, b \in 1..Len(reps) : reps[a] = reps[b] => a = b
Premature == \A r \in refused : \A i \in 1..Len(gens) : gens[i].type = r.type /\ gens[i].st # "wait" => gens[i].key > r.keys
Answered == \A i \in 1..MaxSigns : [](i <= Len(signs) => <>(\E a \in 1..Len(reps) : reps[a] = <<"sign", i>>))
Told == \A i \in 1..MaxKeygens : [](i <= Len(gens) => <>(\E a \in 1..Len(reps) : reps[a] = <<"key", i>>))
==============================================================================
