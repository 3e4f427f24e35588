------------------------------ MODULE TraceRun ------------------------------
(* Runs of the real cgmf.x (one process per rank) replayed as behaviours of Run.tla.
   data.json: << [opts, bad, scale, rc, files, stray, shown, printed, reaction, pieces, obs] >>
     opts      << name, value >> in the order of the command line
     bad       the windows that are to be refused
     rc        exit status of every rank
     files     per rank [f, head, ids, txt]: the file with suffix .r: its name, its header
               (indices of nuclide, energy, window, or empty), the numbers of the events the
               library recognises in it (0: none), and identifiers of their text
     stray     number of other files that appeared
     shown     the 31 numbers of the summary in 0.01; printed: how many ranks printed one
     reaction  the index of the nuclide the summary names
     pieces    << [n, s, txt] >>: separate runs of consecutive parts of the same run
     obs       << [id, v] >>: the library's values of the events              *)
EXTENDS Run, TLC, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLE k
tvars == << set, pc, head, body, recorded, handed, summary, k >>
d == D[k]
Fi(r) == d.files[r + 1]
Abs2(x) == IF x < 0 THEN -x ELSE x

(* ---- the averages, in integers. v: 1 ZL 2 AL 3 ZH 4 AH 5 KEL 6 KEH 7 UL 8 UH 9 JL 10 JH
   11 nuL 12 nuH 13 nuPre 14 EcmL 15 EcmH 16 ElabL 17 ElabH 18 EnPre 19 ngL 20 ngH 21 EgL 22 EgH,
   energies and spins in 1/scale *)
RECURSIVE SumOf(_, _, _)
SumOf(obs, j, n) == IF n = 0 THEN 0 ELSE obs[n].v[j] + SumOf(obs, j, n - 1)
SummaryShows ==
  LET T == [j \in 1..22 |-> SumOf(d.obs, j, Len(d.obs))]
      M == Len(d.obs)  S == d.shown  sc == d.scale
      Cnt(j, num, den) == Abs2(S[j] * den - 100 * num) * 2 <= den + 1
      Avg(j, num, den) == LET n == IF den = 0 THEN 1 ELSE den
                          IN  Abs2(S[j] * n * (sc \div 100) - num) <= (sc \div 200) * n + M + n
      Nu == T[11] + T[12] + T[13]
  IN  /\ Len(S) = 31
      /\ Cnt(1, T[1], M) /\ Cnt(2, T[2], M) /\ Cnt(3, T[3], M) /\ Cnt(4, T[4], M)
      /\ Avg(5, T[5], M) /\ Avg(6, T[6], M) /\ Avg(7, T[5] + T[6], M)
      /\ Avg(8, T[7], M) /\ Avg(9, T[8], M) /\ Avg(10, T[7] + T[8], M)
      /\ Avg(11, T[9], M) /\ Avg(12, T[10], M) /\ Avg(13, T[9] + T[10], 2 * M)
      /\ Cnt(14, T[11], M) /\ Cnt(15, T[12], M) /\ Cnt(16, T[13], M) /\ Cnt(17, Nu, M)
      /\ Avg(18, T[14], T[11]) /\ Avg(19, T[15], T[12]) /\ Avg(20, T[18], T[13]) /\ Avg(21, T[14] + T[15] + T[18], Nu)
      /\ Avg(22, T[16], T[11]) /\ Avg(23, T[17], T[12]) /\ Avg(24, T[18], T[13]) /\ Avg(25, T[16] + T[17] + T[18], Nu)
      /\ Cnt(26, T[19], M) /\ Cnt(27, T[20], M) /\ Cnt(28, T[19] + T[20], M)
      /\ Avg(29, T[21], T[19]) /\ Avg(30, T[22], T[20]) /\ Avg(31, T[21] + T[22], T[19] + T[20])

(* ---- replay *)
Lower(r) == \A q \in RSet : q < r => pc[q] \in {"wait", "done"}
TInit == /\ k \in 1..N /\ set = Unset /\ pc = [r \in RSet |-> "read"] /\ head = {} /\ body = [r \in RSet |-> << >>]
         /\ recorded = [r \in RSet |-> {}] /\ handed = {} /\ summary = << >>
TRead == /\ pc[0] = "read" /\ set' = Settings(Unset, d.opts)
         /\ pc' = [r \in RSet |-> IF set'.t \in {d.bad[j] : j \in 1..Len(d.bad)} THEN "refuse" ELSE "open"]
         /\ UNCHANGED << head, body, recorded, handed, summary, k >>
TRefuse == /\ pc[0] = "refuse" /\ \A r \in RSet : d.rc[r + 1] # 0 /\ Fi(r).ids = << >>
           /\ d.stray = 0 /\ d.printed = 0
           /\ pc' = [r \in RSet |-> "fine"] /\ UNCHANGED << set, head, body, recorded, handed, summary, k >>
TOpen(r) == /\ Lower(r) /\ Open(r) /\ d.rc[r + 1] = 0
            /\ Fi(r).f = set.f
            /\ Fi(r).head = IF r \in head' THEN << set.i, set.e, set.t >> ELSE << >>
            /\ UNCHANGED k
TSim(r) == /\ Lower(r) /\ Simulate(r) /\ Len(Fi(r).ids) > Len(body[r])
           /\ body'[r][Len(body'[r])] = Fi(r).ids[Len(body[r]) + 1] /\ UNCHANGED k
THand(r) == Lower(r) /\ HandIn(r) /\ Len(Fi(r).ids) = set.n /\ UNCHANGED k
TPrint == /\ Print /\ d.stray = 0 /\ UNCHANGED k
          /\ IF set.n = 0 THEN d.printed = 0
             ELSE /\ d.printed = 1 /\ d.reaction = set.i
                  /\ summary'[1] = {d.obs[j].id : j \in 1..Len(d.obs)} /\ SummaryShows
RECURSIVE CatTxt(_)
CatTxt(q) == IF q = << >> THEN << >> ELSE Head(q).txt \o CatTxt(Tail(q))
RECURSIVE Adjacent(_, _)
Adjacent(q, s) == IF q = << >> THEN s = set.s + Ranks * set.n ELSE Head(q).s = s /\ Len(Head(q).txt) = Head(q).n /\ Adjacent(Tail(q), s + Head(q).n)
RECURSIVE AllTxt(_)
AllTxt(r) == IF r < 0 THEN << >> ELSE AllTxt(r - 1) \o Fi(r).txt
(* the parts of the run, simulated by themselves, are the run *)
TParts == /\ \A r \in RSet : pc[r] = "done"
          /\ d.pieces = << >> \/ (Adjacent(d.pieces, set.s) /\ CatTxt(d.pieces) = AllTxt(Ranks - 1))
          /\ pc' = [r \in RSet |-> "fine"] /\ UNCHANGED << set, head, body, recorded, handed, summary, k >>
TDone == pc[0] = "fine" /\ TLCSet(2, [TLCGet(2) EXCEPT ![k] = TRUE]) /\ UNCHANGED tvars
TNext == TRead \/ TRefuse \/ TPrint \/ TParts \/ TDone \/ \E r \in RSet : TOpen(r) \/ TSim(r) \/ THand(r)
TSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, [i \in 1..N |-> "start"]) /\ TLCSet(2, [i \in 1..N |-> FALSE])
Track == TLCSet(1, [TLCGet(1) EXCEPT ![k] = ToString(<< pc, [r \in RSet |-> Len(body[r])] >>)])
Safe == FilesDisjoint /\ HeaderOnce /\ SummaryOfAll /\ SameAsSerial
Rejected == {i \in 1..N : ~TLCGet(2)[i]}
Accepted == PrintT(<< "REJECTED", Rejected, [i \in Rejected |-> TLCGet(1)[i]] >>) /\ Rejected = {}
=============================================================================
