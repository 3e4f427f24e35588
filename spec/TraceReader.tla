----------------------------- MODULE TraceReader -----------------------------
(* What CGMFtk reports after reading a file, against the events that file stands for
   (Reader). data.json: << [lines, ages, window, first (events asked for, or 0), obs] >>;
   the file is read event by event, then every accessor is compared.             *)
EXTENDS Toolkit, TLC, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLES f, i, es
vars == << f, i, es >>
F == D[f]
O == F.obs

Limit == IF F.first = 0 THEN 1000000 ELSE F.first
Init == f \in 1..N /\ i = 1 /\ es = << >>
Read == /\ i <= Len(F.lines) /\ Len(es) < Limit
        /\ LET r == REvent(F.lines, i, F.ages) IN es' = Append(es, r.e) /\ i' = r.next
        /\ UNCHANGED f
Whole == i > Len(F.lines) \/ Len(es) = Limit

Per(s, Q(_)) == Map(s, Q)
Frag2(Q(_)) == Map(Frags(es), Q)
(* name -> expected value *)
Expect == [
  nfrag |-> << 2 * Len(es) >>, nev |-> << Len(es) >>, window |-> F.window,
  A |-> Frag2(LAMBDA x : x.A), Z |-> Frag2(LAMBDA x : x.Z), N |-> Frag2(LAMBDA x : x.A - x.Z),
  U |-> Frag2(LAMBDA x : x.U), J |-> Frag2(LAMBDA x : x.J), P |-> Frag2(LAMBDA x : x.P),
  KEpre |-> Frag2(LAMBDA x : x.KE), KEpost |-> Frag2(LAMBDA x : x.KEp),
  nu |-> Frag2(LAMBDA x : Len(x.n)), nug |-> Frag2(LAMBDA x : Len(x.g)),
  nuLF |-> Map(es, LAMBDA e : Len(e.L.n)), nuHF |-> Map(es, LAMBDA e : Len(e.H.n)), nuEvent |-> Map(es, NuTot),
  nutot |-> Map(es, LAMBDA e : NuTot(e) + Len(e.pre)), preNu |-> Map(es, LAMBDA e : Len(e.pre)),
  nugLF |-> Map(es, LAMBDA e : Len(e.L.g)), nugHF |-> Map(es, LAMBDA e : Len(e.H.g)), nugtot |-> Map(es, NugTot),
  TKEpre |-> Map(es, TKE), TKEpost |-> Map(es, LAMBDA e : e.L.KEp + e.H.KEp), TXE |-> Map(es, LAMBDA e : e.L.U + e.H.U),
  nElab |-> Frag2(LAMBDA x : Energies(x.n)), nEcm |-> Frag2(LAMBDA x : Energies(x.c)), gElab |-> Frag2(LAMBDA x : Energies(x.g)),
  gAges |-> Frag2(LAMBDA x : Ages(x.g)),
  labDir |-> Frag2(LAMBDA x : Dirs(x.n)), cmDir |-> Frag2(LAMBDA x : Dirs(x.c)),
  preE |-> Map(es, LAMBDA e : IF e.pre = << >> THEN << 0 >> ELSE Energies(e.pre)),
  preDir |-> Map(es, LAMBDA e : IF e.pre = << >> THEN << << 0, 0, 0 >> >> ELSE Dirs(e.pre)),
  momPre |-> Frag2(LAMBDA x : x.p), momPost |-> Frag2(LAMBDA x : x.q),
  ALF |-> Map(es, LAMBDA e : e.L.A), ZLF |-> Map(es, LAMBDA e : e.L.Z), NLF |-> Map(es, LAMBDA e : e.L.A - e.L.Z), ULF |-> Map(es, LAMBDA e : e.L.U),
  JLF |-> Map(es, LAMBDA e : e.L.J), PLF |-> Map(es, LAMBDA e : e.L.P), KELF |-> Map(es, LAMBDA e : e.L.KE),
  AHF |-> Map(es, LAMBDA e : e.H.A), ZHF |-> Map(es, LAMBDA e : e.H.Z), NHF |-> Map(es, LAMBDA e : e.H.A - e.H.Z), UHF |-> Map(es, LAMBDA e : e.H.U),
  JHF |-> Map(es, LAMBDA e : e.H.J), PHF |-> Map(es, LAMBDA e : e.H.P), KEHF |-> Map(es, LAMBDA e : e.H.KE) ]
Good(k) == k \in DOMAIN O /\ O[k].ok /\ O[k].v = Expect[k]
Bad == {k \in DOMAIN Expect : ~Good(k)}
Done == /\ Whole /\ TLCSet(2, [TLCGet(2) EXCEPT ![f] = Bad]) /\ UNCHANGED vars
Next == (Read /\ UNCHANGED f) \/ Done
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(2, [k \in 1..N |-> {"not read"}])
Rejected == {k \in 1..N : TLCGet(2)[k] # {}}
Accepted == PrintT(ToJson([rejected |-> [k \in 1..N |-> TLCGet(2)[k]]])) /\ Rejected = {}
=============================================================================
