---------------------------------- MODULE P2P --------------------------------
(* Messages of a node to a peer over streams of bytes.  A message is written as a header with its length and its bytes; *)
(* the transport carries the bytes in pieces of any size; the reader of a stream takes one message after the other and   *)
(* gives it to the listener of the protocol.  A stream is kept for the following messages.  The peer can die and come     *)
(* back, which breaks the streams; a message that could not be written to a stream of before is written to a new one.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Writers,    \* threads that write messages
          Lens,       \* lengths of messages
          MaxMsgs, MaxKills
VARIABLES up, lis,     \* the peer runs; it has registered its listener
          known,       \* the node has noticed that the streams of a former peer process are broken
          stream,      \* the stream the node keeps: its number, or 0
          n,           \* streams opened so far
          wire,        \* stream -> bytes written and not yet read
          alive,       \* streams whose two ends exist
          acc,         \* stream -> the part of a message read so far: <<header length, bytes>> or <<>>
          lock,        \* the writer that has the lock of the connection, or ""
          cur,         \* Writers -> [m, pos, again]: the message being written, bytes written; 0: none
          sent,        \* number of messages so far; message m has length len[m]
          len, must,   \* must: messages that have to arrive
          failed,      \* messages whose writing failed
          got,         \* messages given to the listener, with their bytes
          kills
vars == <<up, lis, known, stream, n, wire, alive, acc, lock, cur, sent, len, must, failed, got, kills>>
Bytes(m, l) == <<<<"h", l>>>> \o [i \in 1..l |-> <<"b", m, i>>]
None == [m |-> 0, pos |-> 0, again |-> FALSE]
Init == /\ up \in BOOLEAN /\ lis = FALSE /\ known = TRUE /\ stream = 0 /\ n = 0 /\ wire = <<>> /\ alive = {} /\ acc = <<>>
        /\ lock = "" /\ cur = [w \in Writers |-> None] /\ sent = 0 /\ len = <<>> /\ must = {} /\ failed = {} /\ got = <<>> /\ kills = 0
Listen == up /\ ~lis /\ lis' = TRUE /\ UNCHANGED <<up, known, stream, n, wire, alive, acc, lock, cur, sent, len, must, failed, got, kills>>
Kill == /\ up /\ kills < MaxKills /\ kills' = kills + 1
        /\ up' = FALSE /\ lis' = FALSE /\ known' = (alive = {}) /\ alive' = {} /\ must' = {}
        /\ UNCHANGED <<stream, n, wire, acc, lock, cur, sent, len, failed, got>>
Notice == ~known /\ known' = TRUE /\ UNCHANGED <<up, lis, stream, n, wire, alive, acc, lock, cur, sent, len, must, failed, got, kills>>
\* The transport has told the node about the end of the old process when the new one runs.
Restart == ~up /\ known /\ up' = TRUE /\ UNCHANGED <<lis, known, stream, n, wire, alive, acc, lock, cur, sent, len, must, failed, got, kills>>
Begin(w, l) == /\ cur[w] = None /\ lock = "" /\ sent < MaxMsgs
               /\ lock' = w /\ sent' = sent + 1 /\ len' = Append(len, l)
               /\ cur' = [cur EXCEPT ![w] = [m |-> sent + 1, pos |-> 0, again |-> FALSE]]
               /\ must' = IF up /\ lis THEN must \cup {sent + 1} ELSE must
               /\ UNCHANGED <<up, lis, known, stream, n, wire, alive, acc, failed, got, kills>>
Finish(w) == lock' = "" /\ cur' = [cur EXCEPT ![w] = None]
Open(w) == /\ lock = w /\ stream = 0
           /\ IF up THEN n' = n + 1 /\ stream' = n + 1 /\ alive' = alive \cup {n + 1} /\ wire' = Append(wire, <<>>) /\ acc' = Append(acc, <<>>)
                         /\ UNCHANGED <<lock, cur, failed>>
              ELSE Finish(w) /\ failed' = failed \cup {cur[w].m} /\ UNCHANGED <<n, stream, alive, wire, acc>>
           /\ UNCHANGED <<up, lis, known, sent, len, must, got, kills>>
\* A piece of the message is written.  Bytes written to a stream that is broken without the node knowing are lost.
Write(w) == /\ lock = w /\ stream # 0
            /\ LET c == cur[w] b == Bytes(c.m, len[c.m]) IN
               IF stream \notin alive /\ known
               THEN \* the old stream is given up; the message is written again, from its beginning, to a new one
                    /\ stream' = 0
                    /\ IF c.again THEN Finish(w) /\ failed' = failed \cup {c.m} ELSE cur' = [cur EXCEPT ![w] = [c EXCEPT !.pos = 0, !.again = TRUE]] /\ UNCHANGED <<lock, failed>>
                    /\ UNCHANGED wire
               ELSE /\ \E k \in {c.pos + 1, Len(b)} :
                         /\ wire' = IF stream \in alive THEN [wire EXCEPT ![stream] = @ \o SubSeq(b, c.pos + 1, k)] ELSE wire
                         /\ IF k = Len(b) THEN Finish(w) ELSE cur' = [cur EXCEPT ![w].pos = k] /\ UNCHANGED lock
                    /\ UNCHANGED <<stream, failed>>
            /\ UNCHANGED <<up, lis, known, n, alive, acc, sent, len, must, got, kills>>
Full(a) == Len(a) > 0 /\ Len(a) = a[1][2] + 1
\* The reader takes the next byte.
Read(s) == /\ s \in alive /\ wire[s] # <<>>
           /\ wire' = [wire EXCEPT ![s] = Tail(@)]
           /\ LET a == Append(acc[s], Head(wire[s])) IN
              /\ acc' = [acc EXCEPT ![s] = IF Full(a) THEN <<>> ELSE a]
              /\ got' = IF Full(a) /\ lis THEN Append(got, Tail(a)) ELSE got
           /\ UNCHANGED <<up, lis, known, stream, n, alive, lock, cur, sent, len, must, failed, kills>>
AnyBegin == \E w \in Writers, l \in Lens : Begin(w, l)
AnyOpen == \E w \in Writers : Open(w)
AnyWrite == \E w \in Writers : Write(w)
AnyRead == \E s \in 1..n : Read(s)
Next == Listen \/ Kill \/ Notice \/ Restart \/ AnyBegin \/ AnyOpen \/ AnyWrite \/ AnyRead
Spec == Init /\ [][Next]_vars /\ WF_vars(AnyOpen) /\ WF_vars(AnyWrite) /\ WF_vars(AnyRead) /\ WF_vars(Notice)
\* Properties
Whole(m) == [i \in 1..len[m] |-> <<"b", m, i>>]
Intact == \A i \in 1..Len(got) : \E m \in 1..sent : got[i] = Whole(m)
Once == \A i, j \in 1..Len(got) : (i # j /\ got[i] # <<>>) => got[i] # got[j]
\* (messages without bytes are told apart by their number only)
OnceEmpty == Cardinality({i \in 1..Len(got) : got[i] = <<>>}) <= Cardinality({m \in 1..sent : len[m] = 0})
NotFailed == must \cap failed = {}
Arrive == \A m \in 1..MaxMsgs : [](m \in must => <>(m \notin must \/ \E i \in 1..Len(got) : got[i] = Whole(m)))
==============================================================================
