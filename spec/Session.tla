------------------------------ MODULE Session ------------------------------
(* A process that uses the library: events in slots (C++ interface), the one
   current event of the C interface, yields files, de-excitation-only calls and
   clean-ups, in any order.

   The meaning of the library is that a simulation is a function of its request
   and of the random stream; nothing else in the process matters. A stream is
   therefore represented by what it was seeded with and what has been drawn from
   it since: << seed, x1, x2, ... >>. The value of the event that draws xn is
   identified by that sequence up to and including xn (its term); what it is the
   specification leaves open (it is uninterpreted), but it must be the same
   wherever the term is observed: later, in another slot, through the other
   interface, after other calls, in another process.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots, Requests, Decays, Seeds, Paths

VARIABLES stream,   \* << >> before the first seeding
          slot,     \* Slots -> term, << >> if empty
          cev       \* term of the current event of the C interface, << >> if none

svars == << stream, slot, cev >>
NoTerm == << >>

SInit == stream = NoTerm /\ slot = [k \in Slots |-> NoTerm] /\ cev = NoTerm

(* s = 0: go on with the stream *)
From(s) == IF s = 0 THEN stream ELSE << << "seed", s >> >>
Ready(s) == s # 0 \/ stream # NoTerm
Term(kind, r, s) == Append(From(s), << kind, r >>)

New(k, r, s) == /\ Ready(s)
                /\ stream' = Term("ev", r, s)
                /\ slot' = [slot EXCEPT ![k] = Term("ev", r, s)]
                /\ UNCHANGED cev
Free(k) == slot[k] # NoTerm /\ slot' = [slot EXCEPT ![k] = NoTerm] /\ UNCHANGED << stream, cev >>
Look(k) == slot[k] # NoTerm /\ UNCHANGED svars
CNew(r, s) == /\ Ready(s)
              /\ stream' = Term("ev", r, s)
              /\ cev' = Term("ev", r, s)
              /\ UNCHANGED slot
CFree == cev' = NoTerm /\ UNCHANGED << stream, slot >>         \* allowed without an event
CLook == cev # NoTerm /\ UNCHANGED svars
Yields(r, s) == /\ Ready(s)
                /\ stream' = Term("yld", r, s)
                /\ UNCHANGED << slot, cev >>
Cool(d, s) == /\ Ready(s)
              /\ stream' = Term("cgm", d, s)
              /\ UNCHANGED << slot, cev >>
Cleanup == UNCHANGED svars                                    \* gives memory back, nothing observable
SetData(p) == UNCHANGED svars                                 \* another spelling of the same directory

Live == {k \in Slots : slot[k] # NoTerm}
=============================================================================
