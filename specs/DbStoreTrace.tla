---------------------------- MODULE DbStoreTrace ----------------------------
EXTENDS TraceBase
VARIABLES pre, keys, presigns, peers
D == INSTANCE DbStore
TraceInit == TInit /\ D!DInit
TraceNext ==
  /\ \/ IsEv("savepre") /\ D!SavePre(Ev.v, Ev.ok)
     \/ IsEv("loadpre") /\ D!LoadPre(Ev.res)
     \/ IsEv("savekey") /\ D!SaveKey(Ev.kind, Ev.kt, Ev.w, Ev.v, Ev.ok)
     \/ IsEv("loadkey") /\ D!LoadKey(Ev.kind, Ev.kt, Ev.res)
     \/ IsEv("savepresign") /\ D!SavePresign(Ev.w, Ev.pids, Ev.vs, Ev.ok)
     \/ IsEv("avail") /\ D!Avail(Ev.res)
     \/ IsEv("loadpresign") /\ D!LoadPresign(Ev.ids, Ev.ok, Ev.res)
     \/ IsEv("status") /\ D!Status(Ev.ids, Ev.ok, Ev.res)
     \/ IsEv("mark") /\ D!Mark(Ev.ids, Ev.ok)
     \/ IsEv("savepeers") /\ D!SavePeers(Ev.ps, Ev.ok)
     \/ IsEv("loadpeers") /\ D!LoadPeers(Ev.res)
  /\ Consume
=============================================================================
