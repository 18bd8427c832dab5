-------------------------------- MODULE FrameGen -----------------------------
(* Sizes of messages, the pieces in which the stream gives their bytes, bytes that are lost, a write that fails. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES sizes, pieces, cut, failat, ph
R(S) == RandomElement(S)
Sz(x) == R({0, 1, 2, 3, 4, 5, 7, 8, 127, 128, 255, 256, 257, 1000, 4091, 4092, 4093, 4096, 8192, 65535, 65536, 70000})
Init == sizes = <<>> /\ pieces = <<>> /\ cut = 0 /\ failat = -1 /\ ph = "sizes"
Size == ph = "sizes" /\ Len(sizes) < N /\ sizes' = Append(sizes, Sz(1)) /\ UNCHANGED <<pieces, cut, failat, ph>>
Enough == ph = "sizes" /\ sizes # <<>> /\ ph' = "pieces" /\ UNCHANGED <<sizes, pieces, cut, failat>>
Piece == ph = "pieces" /\ Len(pieces) < 4 /\ pieces' = Append(pieces, R({1, 2, 3, 4, 5, 8, 100, 4096, 100000})) /\ UNCHANGED <<sizes, cut, failat, ph>>
Total == LET F[i \in 0..Len(sizes)] == IF i = 0 THEN 0 ELSE F[i - 1] + sizes[i] + 4 IN F[Len(sizes)]
Fault == /\ ph = "pieces" /\ ph' = "end" /\ UNCHANGED <<sizes, pieces>>
         /\ \E k \in {R(1..4)} : /\ cut' = (IF k = 1 THEN R({1, 2, 3, 4, 5, 10, 1000}) ELSE 0)
                                 /\ failat' = (IF k = 2 THEN R(0..Total) ELSE -1)
Next == Size \/ Enough \/ Piece \/ Fault
Emit == ph # "end" \/ PrintT(ToJson([sizes |-> sizes, pieces |-> pieces, cut |-> cut, failat |-> failat]))
==============================================================================
