------------------------------ MODULE DataPath ------------------------------
(* Where cgmf.x takes its data from. A run has an option (-d), an environment
   variable (CGMFDATA), possibly an installed data directory, and the data directory
   of the build; some data file may be missing from the directory that is used. The
   run resolves its directory, reads the files, and either runs or stops with a
   failure before it has produced anything.
   Directories: "A", "B" (given by the user), "I" (installed), "S" (of the build),
   "none" (does not exist).                                                     *)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS Options, Envs,       \* "" : not given / empty; "unset" (Envs); "A", "A/", "B", "B/", "none"
          Kinds                \* << spontaneous or not, events or yields >>
AllKinds == {<< sf, ev >> : sf \in BOOLEAN, ev \in BOOLEAN}
(* files every run needs, and those only a neutron-induced one does *)
Always == {"anisotropy.dat", "deformations.dat", "kcksyst.dat", "ldp.dat", "masses.dat", "preeq-params.dat", "preeq-scattering-params.dat",
           "rta.dat", "spinscalingmodel.dat", "temperatures.dat", "tkemodel.dat", "yamodel.dat", "discreteLevels.dat"}
Induced == {"multichancefission.dat"}
Needed(kind) == Always \cup (IF kind[1] THEN {} ELSE Induced)
Strip(x) == IF x = "A/" THEN "A" ELSE IF x = "B/" THEN "B" ELSE x

VARIABLES st, run, dir, left
vars == << st, run, dir, left >>
Complete == [o : Options, e : Envs, inst : BOOLEAN, missing : {""}, kind : Kinds, lev : {"dir", "cwd"}]
Incomplete == [o : {"", "A", "A/"} \cap Options, e : {"unset", "A", "B/"} \cap Envs, inst : BOOLEAN, missing : Always \cup Induced, kind : Kinds, lev : {"dir"}]
(* the directory a run uses, step by step *)
Resolve(r) == IF r.o # "" THEN Strip(r.o)
              ELSE IF r.e \notin {"", "unset"} THEN Strip(r.e)
              ELSE IF r.inst THEN "I" ELSE "S"
(* the source tree has no level file; the file under test is removed from the directory that is used, but not from the others *)
Holds(d, f, r) == /\ d # "none"
                  /\ f # r.missing
                  /\ (f = "discreteLevels.dat" => d # "S")
Init == /\ st = "start" /\ dir = "" /\ left = {}
        /\ run \in Complete \cup {r \in Incomplete : Resolve(r) # "S"}
Choose == st = "start" /\ dir' = Resolve(run) /\ left' = Needed(run.kind) /\ st' = "reading" /\ UNCHANGED run
Found(f) == Holds(dir, f, run) \/ (f = "discreteLevels.dat" /\ run.lev = "cwd")
Read == st = "reading" /\ left # {} /\ (\A f \in left : Found(f)) /\ left' = {} /\ UNCHANGED << st, run, dir >>
Stop == st = "reading" /\ (\E f \in left : ~Found(f)) /\ st' = "stopped" /\ UNCHANGED << run, dir, left >>
Go == st = "reading" /\ left = {} /\ st' = "done" /\ UNCHANGED << run, dir, left >>
Next == Choose \/ Read \/ Stop \/ Go
Spec == Init /\ [][Next]_vars

(* a run never uses a directory that was overridden; it never runs on incomplete data *)
Order == st = "done" => /\ (run.o # "" => dir = Strip(run.o))
                        /\ (run.o = "" /\ run.e \notin {"", "unset"} => dir = Strip(run.e))
                        /\ (dir \in {"I", "S"} => run.o = "" /\ run.e \in {"", "unset"})
                        /\ run.missing \notin Needed(run.kind) /\ dir # "none"
Emit == st \in {"done", "stopped"} => PrintT(ToJson([run |-> run, st |-> st, dir |-> dir]))
=============================================================================
