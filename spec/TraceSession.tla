---------------------------- MODULE TraceSession ----------------------------
(* Recorded sessions of the real library as behaviours of Session. Every line of
   data.json is one completed operation with the digest of what it observed;
   "start" begins another process. known: the values seen so far, per term.     *)
EXTENDS Session, TLC, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLES l, known
tvars == << stream, slot, cev, l, known >>

Line == D[l]
Is(op) == l <= N /\ Line[1] = op
Value(t, d) == IF t \in DOMAIN known THEN known[t] = d /\ UNCHANGED known ELSE known' = known @@ (t :> d)
Same == UNCHANGED known

TInit == SInit /\ l = 1 /\ known = << >>
TStep ==
  \/ Is("start") /\ stream' = NoTerm /\ slot' = [k \in Slots |-> NoTerm] /\ cev' = NoTerm /\ Same
  \/ Is("new") /\ New(Line[2], Line[3], Line[4]) /\ Value(slot'[Line[2]], Line[5]) /\ Line[6] = 1     \* the event knows its request
  \/ Is("free") /\ Free(Line[2]) /\ Same
  \/ Is("show") /\ Look(Line[2]) /\ Value(slot[Line[2]], Line[3]) /\ Line[4] = 1
  \/ Is("oor") /\ Look(Line[2]) /\ Line[3] = 1 /\ Same
  \/ Is("cnew") /\ CNew(Line[2], Line[3]) /\ Value(cev', Line[4])
  \/ Is("cclean") /\ CFree /\ Same
  \/ Is("cshow") /\ CLook /\ Value(cev, Line[2])
  \/ Is("coor") /\ CLook /\ Line[2] = 1 /\ Same
  \/ Is("yld") /\ Yields(Line[2], Line[3]) /\ Value(stream', Line[4])
  \/ Is("cgm") /\ Cool(Line[2], Line[3]) /\ Value(stream', Line[4])
  \/ Is("cleanup") /\ Cleanup /\ Same
  \/ Is("data") /\ SetData(Line[2]) /\ Same
TNext == l <= N /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(1, l)
ASSUME TLCSet(1, 0)
Accepted == PrintT(<< "REACHED", TLCGet(1), N + 1 >>) /\ TLCGet(1) = N + 1
=============================================================================
