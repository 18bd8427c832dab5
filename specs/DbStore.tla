------------------------------ MODULE DbStore ------------------------------
(* The database of a node (db/database.go): generation parameters, key shares, presigns and peers.                 *)
(* Where the property is silent - what a second store under the same key does - both refusing it and replacing the  *)
(* entry are behaviours of this specification; damage to any other entry is not.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pre,        \* "none" or the stored value
          keys,       \* set of [kind, kt, w, v]
          presigns,   \* presign id -> [v, pids, used]
          peers       \* public key -> [addr, type]
dvars == <<pre, keys, presigns, peers>>
DInit == pre = "none" /\ keys = {} /\ presigns = <<>> /\ peers = <<>>
Set(f, k, x) == TLCEval([y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]])

SavePre(v, ok) == /\ pre = "none" => ok
                  /\ pre' = (IF ok THEN v ELSE pre)
                  /\ UNCHANGED <<keys, presigns, peers>>
LoadPre(res) == res = pre /\ UNCHANGED dvars

Entry(kind, kt, w) == {k \in keys : k.kind = kind /\ k.kt = kt /\ k.w = w}
\* Both kinds of shares are stored by key type and work.
Taken(kt, w) == \E k \in keys : k.kt = kt /\ k.w = w
SaveKey(kind, kt, w, v, ok) ==
  /\ ~Taken(kt, w) => ok
  /\ keys' = IF ok THEN (keys \ {k \in keys : k.kt = kt /\ k.w = w}) \cup {[kind |-> kind, kt |-> kt, w |-> w, v |-> v]} ELSE keys
  /\ UNCHANGED <<pre, presigns, peers>>
LoadKey(kind, kt, res) ==
  LET es == {k \in keys : k.kind = kind /\ k.kt = kt}
  IN /\ IF es = {} THEN res = "none" ELSE \E k \in es : k.v = res
     /\ UNCHANGED dvars

Id(w, i) == w \o "-" \o ToString(i)
SavePresign(w, pids, vs, ok) ==
  LET ids == {Id(w, i - 1) : i \in 1..Len(vs)}
      at == [i \in 1..Len(vs) |-> Id(w, i - 1)]
      fresh == ids \cap DOMAIN presigns = {}
  IN /\ fresh = ok \/ vs = <<>>
     /\ presigns' = IF fresh /\ ok
                    THEN TLCEval([x \in DOMAIN presigns \cup ids |->
                            IF x \in ids THEN [v |-> vs[CHOOSE i \in 1..Len(vs) : at[i] = x], pids |-> pids, used |-> FALSE]
                            ELSE presigns[x]])
                    ELSE presigns
     /\ UNCHANGED <<pre, keys, peers>>
Elems(q) == {q[i] : i \in 1..Len(q)}
Available == {x \in DOMAIN presigns : ~presigns[x].used}
Avail(res) == /\ Len(res) = Cardinality(Available)
              /\ Elems(res) = {<<x, presigns[x].pids>> : x \in Available}
              /\ UNCHANGED dvars
\* Data and status of exactly the requested presigns in the requested order, or an error if one is missing.  For
\* requests that are empty or name a presign twice an error is fine too.
Odd(ids) == ids = <<>> \/ Cardinality(Elems(ids)) # Len(ids)
LoadPresign(ids, ok, res) ==
  /\ ~(Elems(ids) \subseteq DOMAIN presigns) => ~ok
  /\ (~ok => Odd(ids) \/ ~(Elems(ids) \subseteq DOMAIN presigns))
  /\ ok => res = [i \in 1..Len(ids) |-> presigns[ids[i]].v]
  /\ UNCHANGED dvars
Status(ids, ok, res) ==
  /\ ~(Elems(ids) \subseteq DOMAIN presigns) => ~ok
  /\ (~ok => Odd(ids) \/ ~(Elems(ids) \subseteq DOMAIN presigns))
  /\ ok => res = [i \in 1..Len(ids) |-> IF presigns[ids[i]].used THEN "used" ELSE "not_used"]
  /\ UNCHANGED dvars
\* Marking: all of them, or an error.  After an error the unused ones among them may or may not be marked.
Mark(ids, ok) ==
  LET good == Elems(ids) \subseteq Available
      all == TLCEval([x \in DOMAIN presigns |-> IF x \in Elems(ids) THEN [presigns[x] EXCEPT !.used = TRUE] ELSE presigns[x]])
  IN /\ ok => good
     /\ ~ok => Odd(ids) \/ ~good
     /\ IF ok THEN presigns' = all ELSE presigns' \in {presigns, all}
     /\ UNCHANGED <<pre, keys, peers>>
\* ps: sequence of <<key, address, type>>
SavePeers(ps, ok) ==
  LET ks == {ps[i][1] : i \in 1..Len(ps)}
      fresh == ks \cap DOMAIN peers = {} /\ Cardinality(ks) = Len(ps)
      lastOf(k) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k /\ \A j \in 1..Len(ps) : ps[j][1] = k => j <= i]
  IN /\ fresh => ok
     /\ peers' = IF ok THEN TLCEval([k \in DOMAIN peers \cup ks |-> IF k \in ks THEN <<lastOf(k)[2], lastOf(k)[3]>> ELSE peers[k]])
                 ELSE peers
     /\ UNCHANGED <<pre, keys, presigns>>
LoadPeers(res) == /\ Len(res) = Cardinality(DOMAIN peers)
                  /\ Elems(res) = {<<k, peers[k][1], peers[k][2]>> : k \in DOMAIN peers}
                  /\ UNCHANGED dvars
=============================================================================
