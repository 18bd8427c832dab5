---------------------------- MODULE WorkCacheMC ----------------------------
EXTENDS WorkCache, TLC, Json
CONSTANTS Senders, Keys, Adds, N
VARIABLES cnt, hist, last     \* last: the numbers of the additions of each sender and key, newest
mvars == <<kept, cnt, hist, last>>
Init == WInit /\ cnt = 0 /\ hist = <<>> /\ last = [s \in Senders, k \in Keys |-> <<0, 0>>]
Log(h) == hist' = IF N = 0 THEN hist ELSE Append(hist, h)
AddAny == /\ IF N = 0 THEN cnt < Adds ELSE Len(hist) < N
          /\ \E s \in Senders, k \in Keys :
              /\ cnt' = cnt + 1 /\ Add(s, k, cnt + 1)
              \* <<number, additions of this sender from then on>>
              /\ last' = TLCEval([x \in Senders \X Keys |-> IF x[1] # s THEN last[x]
                             ELSE IF x[2] = k THEN <<cnt + 1, 1>>
                             ELSE IF last[x][1] = 0 THEN last[x] ELSE <<last[x][1], last[x][2] + 1>>])
              /\ Log([op |-> "add", from |-> s, key |-> k])
GetAny == /\ N > 0 /\ Len(hist) < N
          /\ \E s \in Senders, k \in Keys : Log([op |-> "get", from |-> s, key |-> k]) /\ UNCHANGED <<kept, cnt, last>>
Next == AddAny \/ GetAny
\* A message is found exactly while it is among the last Room additions of its sender, however often it was stored.
Recent == \A s \in Senders, k \in Keys :
            Find(s, k) = IF last[s, k][1] # 0 /\ last[s, k][2] <= Room(s) THEN last[s, k][1] ELSE 0
Emit == N = 0 \/ Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
