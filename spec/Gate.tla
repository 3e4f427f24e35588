-------------------------------- MODULE Gate --------------------------------
(* Which requests are served. A request comes through one of the interfaces; the
   gate either admits it, and then exactly the event asked for is produced, or
   refuses it, and then the process ends with a failure status, says so on
   stderr and has produced nothing. Energies in 1e-8 MeV (20 MeV = 2000000000). *)
EXTENDS Integers, FiniteSets, TLC, Json

CONSTANTS ZAIDs, Energies, Interfaces, Ranges

SpontaneousFission == {94238, 94240, 94242, 94244, 98252, 98254}
NeutronInduced == {92233, 92234, 92235, 92238, 93237, 94239, 94241}
EMax == 2000000000

(* an energy is a number on the grid, or one next to the boundaries closer than the grid
   (just above or below 0, just above 20 MeV), or not a number (NaN), or infinite *)
JustAboveZero == [kind |-> "eps", v |-> 0]
JustBelowZero == [kind |-> "-eps", v |-> 0]
JustAboveMax == [kind |-> "max+", v |-> 0]
Between == {JustAboveZero, JustBelowZero, JustAboveMax}
NaN == [kind |-> "nan", v |-> 0]
PlusInf == [kind |-> "inf", v |-> 0]
MinusInf == [kind |-> "-inf", v |-> 0]
Num(v) == [kind |-> "num", v |-> v]
AllEnergies == {Num(v) : v \in Energies} \cup {Num(-v) : v \in Energies \ {0}} \cup {NaN, PlusInf, MinusInf} \cup Between

Served(za, e) ==
  \/ e.kind = "num" /\ e.v = 0 /\ za \in SpontaneousFission
  \/ e.kind = "num" /\ 0 < e.v /\ e.v <= EMax /\ za \in NeutronInduced
  \/ e = JustAboveZero /\ za \in NeutronInduced

VARIABLES st, req
gvars == << st, req >>
GInit == st = "idle" /\ req = << >>
(* asking again after an answer: the gate remembers nothing of what it served *)
Ask == /\ st \in {"idle", "served"}
       /\ \E za \in ZAIDs \cup {-z : z \in ZAIDs}, e \in AllEnergies, i \in Interfaces :
            req' = [za |-> za, e |-> e, i |-> i]
       /\ st' = "asked"
Serve == st = "asked" /\ Served(req.za, req.e) /\ st' = "served" /\ UNCHANGED req
Refuse == st = "asked" /\ ~Served(req.za, req.e) /\ st' = "refused" /\ UNCHANGED req
(* a sweep: every target number of a range at one energy; those served *)
Sweep == /\ st = "idle"
         /\ \E r \in Ranges, e \in {Num(0)} \cup {Num(v) : v \in Energies} :
              req' = [za |-> {z \in r[1]..r[2] : Served(z, e)}, e |-> e, i |-> r]
         /\ st' = "swept"
GNext == Ask \/ Serve \/ Refuse \/ Sweep
GSpec == GInit /\ [][GNext]_gvars

(* nothing is both spontaneous and induced; only the 13 nuclides are ever served *)
Sane == st = "served" =>
          /\ req.za \in SpontaneousFission \cup NeutronInduced
          /\ (req.e = Num(0)) = (req.za \in SpontaneousFission)
Emit == st \in {"served", "refused"} => PrintT(ToJson(<< req.za, req.e.kind, req.e.v, req.i, st >>))
EmitSweep == st = "swept" => PrintT(ToJson(<< "sweep", req.i, req.e.v, req.za >>))
=============================================================================
