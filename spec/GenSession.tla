----------------------------- MODULE GenSession -----------------------------
(* Operation histories of Session, to be replayed into the real library *)
EXTENDS Session, TLC, Json

CONSTANTS Depth, Kinds
VARIABLE hist
gvars == << stream, slot, cev, hist >>

Do(op) == hist' = Append(hist, op)
Has(x) == x \in Kinds
GInit == SInit /\ hist = << >>
GEnd == Len(hist) = Depth /\ UNCHANGED svars /\ Do(<< "end" >>)     \* one successor: a simulation prints one history
GNext == GEnd \/
         /\ Len(hist) < Depth
         /\ \/ Has("new") /\ \E k \in Slots, r \in Requests, s \in Seeds : New(k, r, s) /\ Do(<< "new", k, r, s >>)
            \/ Has("free") /\ \E k \in Slots : Free(k) /\ Do(<< "free", k >>)
            \/ Has("show") /\ \E k \in Slots : Look(k) /\ Do(<< "show", k >>)
            \/ Has("oor") /\ \E k \in Slots : Look(k) /\ Do(<< "oor", k >>)
            \/ Has("cnew") /\ \E r \in Requests, s \in Seeds : CNew(r, s) /\ Do(<< "cnew", r, s >>)
            \/ Has("cclean") /\ CFree /\ Do(<< "cclean" >>)
            \/ Has("cshow") /\ CLook /\ Do(<< "cshow" >>)
            \/ Has("coor") /\ CLook /\ Do(<< "coor" >>)
            \/ Has("yld") /\ \E r \in Requests, s \in Seeds : Yields(r, s) /\ Do(<< "yld", r, s >>)
            \/ Has("cgm") /\ \E d \in Decays, s \in Seeds : Cool(d, s) /\ Do(<< "cgm", d, s >>)
            \/ Has("cleanup") /\ Cleanup /\ Do(<< "cleanup" >>)
            \/ Has("data") /\ \E p \in Paths : SetData(p) /\ Do(<< "data", p >>)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
TypeOK == /\ \A k \in Slots : slot[k] # NoTerm => slot[k][Len(slot[k])][1] = "ev"
          /\ cev # NoTerm => cev[Len(cev)][1] = "ev"
=============================================================================
