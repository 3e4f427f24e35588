------------------------------ MODULE YieldsTk ------------------------------
(* What CGMFtk reports after reading a yields file, against its lines.
   data.json: << [rows, first (events asked for, or 0), obs] >>; a row is the tokens
   Z A KE U J P px py pz, the spin as << 2, twice its value >>.                    *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLES f, k          \* k: lines taken
vars == << f, k >>
F == D[f]
O == F.obs
Init == f \in 1..N /\ k = 0
Take == k < Len(F.rows) /\ (F.first = 0 \/ k < 2 * F.first) /\ k' = k + 2 /\ UNCHANGED f
Whole == k = Len(F.rows) \/ (F.first > 0 /\ k = 2 * F.first)

Rows == SubSeq(F.rows, 1, k)
Odd == [j \in 1..k \div 2 |-> Rows[2 * j - 1]]
Even == [j \in 1..k \div 2 |-> Rows[2 * j]]
Col(rs, c) == TLCEval([j \in 1..Len(rs) |-> rs[j][c]])
Ints(rs, c) == TLCEval([j \in 1..Len(rs) |-> rs[j][c][2]])
P10(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE IF n = 3 THEN 1000 ELSE IF n = 4 THEN 10000 ELSE IF n = 5 THEN 100000 ELSE 1000000
(* a number below 1000, in 1e-6 *)
Micro(t) == IF t[1] = 0 THEN 1000000 * t[2] ELSE IF t[3] >= -1 THEN t[2] * P10(t[3] + 1) ELSE t[2] \div P10(-1 - t[3])
Milli(t) == IF t[1] = 0 THEN 1000 * t[2] ELSE IF t[1] = 2 THEN 500 * t[2] ELSE (IF Micro(t) >= 0 THEN Micro(t) \div 1000 ELSE -((-Micro(t)) \div 1000))
Near(a, b, t) == a > -1900000000 /\ a - b <= t /\ b - a <= t
NearS(a, b, t) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], t)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MilliMean(s) == Sum(s) \div Len(s)
Is(n, x) == n \in DOMAIN O /\ O[n].ok /\ O[n].v = x
Pairwise(c) == TLCEval([j \in 1..k \div 2 |-> Micro(Odd[j][c]) + Micro(Even[j][c])])
Map2(rs, c) == TLCEval([j \in 1..Len(rs) |-> Milli(rs[j][c])])
Cells(c) == << MilliMean(Map2(Rows, c)), MilliMean(Map2(Odd, c)), MilliMean(Map2(Even, c)) >>
EventCells(c) == << Sum([j \in 1..k \div 2 |-> Milli(Odd[j][c]) + Milli(Even[j][c])]) \div (k \div 2), MilliMean(Map2(Odd, c)), MilliMean(Map2(Even, c)) >>
RowIs(r, cells) == Len(r) = 3 /\ \A j \in 1..3 : Near(r[j], 1000 * cells[j], 5000 + 3002)
Table == LET T == O.table.v
         IN  /\ "table" \in DOMAIN O /\ O.table.ok /\ Len(T) = 6
             /\ RowIs(T[1], Cells(2)) /\ RowIs(T[2], Cells(1)) /\ RowIs(T[3], EventCells(4)) /\ RowIs(T[4], EventCells(3))
             /\ RowIs(T[5], Cells(5)) /\ RowIs(T[6], Cells(6))
Verdicts == [
  nfrag |-> Is("nfrag", << k >>), nev |-> Is("nev", << k \div 2 >>),
  Z |-> Is("Z", Ints(Rows, 1)), A |-> Is("A", Ints(Rows, 2)), N |-> Is("N", [j \in 1..k |-> Rows[j][2][2] - Rows[j][1][2]]),
  KE |-> Is("KE", Col(Rows, 3)), U |-> Is("U", Col(Rows, 4)), J |-> Is("J", Ints(Rows, 5)), P |-> Is("P", Ints(Rows, 6)),
  mom |-> Is("mom", [j \in 1..k |-> SubSeq(Rows[j], 7, 9)]),
  TXE |-> "TXE" \in DOMAIN O /\ O.TXE.ok /\ NearS(O.TXE.v, Pairwise(4), 2), TKE |-> "TKE" \in DOMAIN O /\ O.TKE.ok /\ NearS(O.TKE.v, Pairwise(3), 2),
  ZLF |-> Is("ZLF", Ints(Odd, 1)), ALF |-> Is("ALF", Ints(Odd, 2)), KELF |-> Is("KELF", Col(Odd, 3)), ULF |-> Is("ULF", Col(Odd, 4)), JLF |-> Is("JLF", Ints(Odd, 5)), PLF |-> Is("PLF", Ints(Odd, 6)),
  ZHF |-> Is("ZHF", Ints(Even, 1)), AHF |-> Is("AHF", Ints(Even, 2)), KEHF |-> Is("KEHF", Col(Even, 3)), UHF |-> Is("UHF", Col(Even, 4)), JHF |-> Is("JHF", Ints(Even, 5)), PHF |-> Is("PHF", Ints(Even, 6)),
  rows |-> Is("rows", [j \in 1..k |-> << O.rows.v[j][1], O.rows.v[j][2] >> \o SubSeq(Rows[j], 3, 4) \o << O.rows.v[j][5], O.rows.v[j][6] >> \o SubSeq(Rows[j], 7, 9)]),
  table |-> Table ]
Bad == {x \in DOMAIN Verdicts : ~Verdicts[x]}
Done == Whole /\ TLCSet(2, [TLCGet(2) EXCEPT ![f] = Bad]) /\ UNCHANGED vars
Next == Take \/ Done
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(2, [x \in 1..N |-> {"not read"}])
Rejected == {x \in 1..N : TLCGet(2)[x] # {}}
Accepted == PrintT(ToJson([rejected |-> [x \in 1..N |-> TLCGet(2)[x]]])) /\ Rejected = {}
=============================================================================
