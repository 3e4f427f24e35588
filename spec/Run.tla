-------------------------------- MODULE Run --------------------------------
(* A run of cgmf.x: the command line, the ranks, their files and the summary.

   The command line is read option by option (Apply); what the options leave
   unset has its default. Every rank then writes its own file: rank 0 the header,
   every rank its N events, whose numbers (the seeds of their random streams)
   are its own block of the whole sequence. After its file is closed a rank hands
   in the events it has seen; rank 0 prints the summary when all have.         *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- the command line: options are << name, value >>; values of i, e, t, f are
        indices of concrete values, 0 standing for "not given"                 *)
Unset == [i |-> 0, e |-> 0, t |-> 0, f |-> 0, n |-> 0, s |-> 1]
Apply(set, o) == [set EXCEPT ![o[1]] = o[2]]                  \* the last one counts
RECURSIVE Settings(_, _)
Settings(set, opts) == IF opts = << >> THEN set ELSE Settings(Apply(set, Head(opts)), Tail(opts))

(* ---- numbering *)
First(set, r) == set.s + r * set.n
Block(set, r) == [k \in 1..set.n |-> First(set, r) + k - 1]

(* ---- the run *)
CONSTANTS Ranks, MaxN, Starts
VARIABLES set, pc, head, body, recorded, handed, summary
rvars == << set, pc, head, body, recorded, handed, summary >>
RSet == 0..(Ranks - 1)
None == {}
RInit == /\ \E n \in 1..MaxN, s \in Starts : set = [Unset EXCEPT !.n = n, !.s = s]
         /\ pc = [r \in RSet |-> "open"] /\ head = {} /\ body = [r \in RSet |-> << >>]
         /\ recorded = [r \in RSet |-> {}] /\ handed = {} /\ summary = << >>
Open(r) == /\ pc[r] = "open" /\ pc' = [pc EXCEPT ![r] = "loop"]
           /\ head' = IF r = 0 THEN head \union {r} ELSE head
           /\ UNCHANGED << set, body, recorded, handed, summary >>
Simulate(r) == /\ pc[r] = "loop" /\ Len(body[r]) < set.n
               /\ LET ev == First(set, r) + Len(body[r])
                  IN  body' = [body EXCEPT ![r] = Append(@, ev)] /\ recorded' = [recorded EXCEPT ![r] = @ \union {ev}]
               /\ UNCHANGED << set, pc, head, handed, summary >>
HandIn(r) == /\ pc[r] = "loop" /\ Len(body[r]) = set.n
             /\ handed' = handed \union {r} /\ pc' = [pc EXCEPT ![r] = IF r = 0 THEN "wait" ELSE "done"]
             /\ UNCHANGED << set, head, body, recorded, summary >>
Print == /\ pc[0] = "wait" /\ handed = RSet
         /\ summary' = << UNION {recorded[r] : r \in RSet} >> /\ pc' = [pc EXCEPT ![0] = "done"]
         /\ UNCHANGED << set, head, body, recorded, handed >>
RNext == \/ \E r \in RSet : Open(r) \/ Simulate(r) \/ HandIn(r)
         \/ Print
         \/ (\A r \in RSet : pc[r] = "done") /\ UNCHANGED rvars
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)

Range(q) == {q[k] : k \in 1..Len(q)}
(* ---- what a user relies on *)
FilesAreBlocks == \A r \in RSet : body[r] = SubSeq(Block(set, r), 1, Len(body[r]))
FilesDisjoint == \A r, q \in RSet : r # q => Range(body[r]) \cap Range(body[q]) = {}
HeaderOnce == head \subseteq {0}
SummaryOfAll == summary # << >> => summary[1] = set.s..(set.s + Ranks * set.n - 1)
RECURSIVE Cat(_)
Cat(r) == IF r < 0 THEN << >> ELSE Cat(r - 1) \o body[r]
SameAsSerial == summary # << >> => Cat(Ranks - 1) = Block([set EXCEPT !.n = Ranks * set.n], 0)
Terminates == <>(\A r \in RSet : pc[r] = "done")
(* consecutive runs concatenate to the longer run *)
Partition == \A n, m \in 0..MaxN, s \in Starts :
  Block([Unset EXCEPT !.n = n + m, !.s = s], 0)
    = Block([Unset EXCEPT !.n = n, !.s = s], 0) \o Block([Unset EXCEPT !.n = m, !.s = s + n], 0)
=============================================================================
