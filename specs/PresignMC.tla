----------------------------- MODULE PresignMC -----------------------------
EXTENDS Presign, TLC
StoreAny == \E S \in SUBSET Ids : Store(S)
TakeAny == \E p \in Procs, S \in SUBSET Ids : Take(p, S)
ToldAny == \E p \in Procs, S \in SUBSET Ids : Told(p, S)
MarkAny == \E p \in Procs : Mark(p)
MarkFailsAny == \E p \in Procs : MarkFails(p)
HandAny == \E p \in Procs : Hand(p)
Next == StoreAny \/ Offer \/ TakeAny \/ ToldAny \/ MarkAny \/ MarkFailsAny \/ HandAny \/ Crash
=============================================================================
