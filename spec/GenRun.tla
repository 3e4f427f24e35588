------------------------------- MODULE GenRun -------------------------------
(* Command lines and rank schedules of Run, to be replayed into the real program:
   options in any order, glued to their value or not, given twice or not at all. *)
EXTENDS Run, TLC, Json
CONSTANTS Is, SFs, Es, Ts, Fs, Ns, Ss, MaxOpts
VARIABLES line, order
gvars == << set, pc, head, body, recorded, handed, summary, line, order >>

GInit == /\ set = Unset /\ pc = [r \in RSet |-> "read"] /\ head = {} /\ body = [r \in RSet |-> << >>]
         /\ recorded = [r \in RSet |-> {}] /\ handed = {} /\ summary = << >> /\ line = << >> /\ order = << >>
Opt(o, v, glued) == /\ pc[0] = "read" /\ Len(line) < MaxOpts
                    /\ line' = Append(line, << o, v, glued >>) /\ set' = Apply(set, << o, v >>)
                    /\ UNCHANGED << pc, head, body, recorded, handed, summary, order >>
(* required options given, energy 0 for spontaneous fission only (C01's business otherwise) *)
Valid == set.i # 0 /\ set.e # 0 /\ (set.i \in SFs <=> set.e = 1)
Go == /\ pc[0] = "read" /\ Valid /\ set.n \in Ns /\ \E k \in 1..Len(line) : line[k][1] = "n"
      /\ pc' = [r \in RSet |-> "open"]
      /\ UNCHANGED << set, head, body, recorded, handed, summary, line, order >>
Start(r) == /\ pc[r] = "open" /\ Open(r) /\ order' = Append(order, r) /\ UNCHANGED line
Stop == pc[0] # "read" /\ Len(order) = Ranks /\ pc[0] # "end" /\ pc' = [r \in RSet |-> "end"]
        /\ UNCHANGED << set, head, body, recorded, handed, summary, line, order >>
GNext == \/ \E g \in {0, 1} : \/ \E v \in Is : Opt("i", v, g)
                              \/ \E v \in Es : Opt("e", v, g)
                              \/ \E v \in Ts : Opt("t", v, g)
                              \/ \E v \in Fs : Opt("f", v, g)
                              \/ \E v \in Ns : Opt("n", v, g)
                              \/ \E v \in Ss : Opt("s", v, g)
         \/ Go \/ (\E r \in RSet : Start(r)) \/ Stop
GSpec == GInit /\ [][GNext]_gvars
Emit == pc[0] = "end" => PrintT(ToJson(<< line, order >>))
=============================================================================
