------------------------------ MODULE Lineage -------------------------------
(***************************************************************************)
(* Life of a run across run() calls, state files, crashes and resumes.     *)
(*                                                                         *)
(* A history is a sequence of entries, one per iteration.  The first       *)
(* Batches entries are warm-up entries, entry k evaluating prior batch k.  *)
(* Because a resumed run gets the random generators as they were at save   *)
(* time, entry k of every lineage of one problem is the same entry.        *)
(*                                                                         *)
(* obj   the live sampler: hist, t, calls (its counter), evals (ghost:     *)
(*       evaluations really made in the lineage), warm (warm-up pending),  *)
(*       drawn (prior sample exists), cache (what results reports)         *)
(* disk  state files by name                                               *)
(* run   the run() call in progress: t0, every, total, crash               *)
(* BUG   switches one historical defect on, to show the invariants bite    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Batches,     \* warm-up iterations
          Per,         \* evaluations per iteration (n_active, one MCMC step)
          Needs,       \* Needs[i]: history length at which total i is reached
          Everys,      \* values of save_every (0: none)
          MaxCmds, BUG
VARIABLES obj, disk, run, cmds, done

vars == <<obj, disk, run, cmds, done>>
Fresh == [hist |-> <<>>, t |-> 0, calls |-> 0, evals |-> 0, warm |-> TRUE, drawn |-> FALSE, cache |-> <<>>, cached |-> FALSE]
NoObj == [hist |-> <<>>, t |-> -1, calls |-> 0, evals |-> 0, warm |-> TRUE, drawn |-> FALSE, cache |-> <<>>, cached |-> FALSE]
Idle == [on |-> FALSE, t0 |-> 0, every |-> 0, need |-> 0, crash |-> 0, steps |-> 0]
Alive == obj.t >= 0
Final == 1000
Manual == 1001
Entry(kind, batch, iter, calls) == [kind |-> kind, batch |-> batch, iter |-> iter, calls |-> calls]

Init == obj = Fresh /\ disk = <<>> /\ run = Idle /\ cmds = <<>> /\ done = FALSE

Snapshot(o) == [hist |-> o.hist, t |-> o.t, calls |-> o.calls, evals |-> o.evals, warm |-> o.warm, drawn |-> o.drawn]
Put(d, name, s) == [n \in DOMAIN d \cup {name} |-> IF n = name THEN s ELSE d[n]]
Load(s) == [hist |-> s.hist, t |-> s.t, calls |-> s.calls, evals |-> s.evals, drawn |-> s.drawn, cache |-> <<>>, cached |-> FALSE,
            warm |-> s.warm]

Crashes == 0..4
\* --------------------------------------------------------- user commands
Start == /\ ~run.on /\ Alive /\ Len(cmds) < MaxCmds
         /\ \E i \in DOMAIN Needs, e \in Everys, c \in Crashes :
              /\ run' = [on |-> TRUE, t0 |-> obj.t, every |-> e, need |-> Needs[i], crash |-> c, steps |-> 0]
              /\ cmds' = Append(cmds, <<"run", i, e, c>>)
         /\ obj' = [obj EXCEPT !.drawn = TRUE]
         /\ done' = FALSE /\ UNCHANGED disk
Resume == /\ ~run.on /\ Len(cmds) < MaxCmds
          /\ \E n \in DOMAIN disk, i \in DOMAIN Needs, e \in Everys, c \in Crashes :
               /\ obj' = [Load(disk[n]) EXCEPT !.drawn = TRUE, !.t = IF BUG = "resume-counter" THEN disk[n].t + 1 ELSE disk[n].t]
               /\ run' = [on |-> TRUE, t0 |-> disk[n].t, every |-> e, need |-> Needs[i], crash |-> c, steps |-> 0]
               /\ cmds' = Append(cmds, <<"resume", n, i, e, c>>)
          /\ done' = FALSE /\ UNCHANGED disk
SaveNow == /\ ~run.on /\ Alive /\ Len(cmds) < MaxCmds
           /\ disk' = Put(disk, Manual, Snapshot(obj))
           /\ cmds' = Append(cmds, <<"save">>)
           /\ UNCHANGED <<obj, run, done>>
Read == /\ ~run.on /\ Alive /\ obj.hist # <<>> /\ Len(cmds) < MaxCmds
        /\ obj' = [obj EXCEPT !.cache = IF BUG = "stale-results" /\ obj.cached THEN @ ELSE obj.hist, !.cached = TRUE]
        /\ cmds' = Append(cmds, <<"read">>)
        /\ UNCHANGED <<disk, run, done>>
\* ----------------------------------------------------- inside a run() call
Reached == Len(obj.hist) >= run.need
SaveDue == run.every > 0 /\ obj.t # run.t0 /\ (obj.t - run.t0) % run.every = 0
SavedHere == obj.t \in DOMAIN disk /\ disk[obj.t] = Snapshot(obj)
InWarm == obj.warm /\ obj.t < Batches
AutoSave == /\ run.on /\ SaveDue /\ ~SavedHere /\ (InWarm \/ ~Reached)
            /\ disk' = Put(disk, obj.t, Snapshot(obj))
            /\ UNCHANGED <<obj, run, cmds, done>>
CanStep == run.on /\ ~(SaveDue /\ ~SavedHere)
Crash == /\ CanStep /\ run.crash > 0 /\ run.steps + 1 = run.crash /\ (InWarm \/ ~Reached)
         /\ obj' = NoObj /\ run' = Idle
         /\ UNCHANGED <<disk, cmds, done>>
NoCrash == ~(run.crash > 0 /\ run.steps + 1 = run.crash)
Batch == IF BUG = "warm-restart" THEN run.steps + 1 ELSE obj.t + 1
Warm == /\ CanStep /\ NoCrash /\ InWarm
        /\ obj' = [obj EXCEPT !.hist = Append(@, Entry("warm", Batch, obj.t, obj.calls + Per)), !.t = @ + 1,
                              !.calls = @ + Per, !.evals = @ + Per, !.warm = obj.t + 1 < Batches]
        /\ run' = [run EXCEPT !.steps = @ + 1]
        /\ UNCHANGED <<disk, cmds, done>>
\* the number of MCMC steps (and so of evaluations) is a function of the lineage position
Cost == IF Len(obj.hist) % 2 = 0 THEN Per ELSE 2 * Per
Iterate == /\ CanStep /\ NoCrash /\ ~InWarm /\ ~Reached
           /\ obj' = [obj EXCEPT !.hist = Append(@, Entry("smc", 0, IF BUG = "iter-index" THEN Batches ELSE obj.t, obj.calls + Cost)),
                                 !.t = @ + 1, !.calls = @ + Cost, !.evals = @ + Cost]
           /\ run' = [run EXCEPT !.steps = @ + 1]
           /\ UNCHANGED <<disk, cmds, done>>
Finish == /\ run.on /\ ~InWarm /\ Reached
          /\ disk' = IF run.every > 0 THEN Put(disk, Final, Snapshot(obj)) ELSE disk
          /\ run' = Idle /\ done' = TRUE
          /\ UNCHANGED <<obj, cmds>>
Next == Start \/ Resume \/ SaveNow \/ Read \/ AutoSave \/ Crash \/ Warm \/ Iterate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(AutoSave \/ Crash \/ Warm \/ Iterate \/ Finish)

\* -------------------------------------------------------------- invariants
IterIndex(h) == \A k \in DOMAIN h : h[k].iter = k - 1
PriorOnce(h) == \A k \in DOMAIN h : IF k <= Batches THEN h[k].kind = "warm" /\ h[k].batch = k ELSE h[k].kind = "smc"
CallsMonotone(h) == \A k \in 1..Len(h) - 1 : h[k].calls < h[k + 1].calls
Lineages == {obj.hist} \cup {disk[n].hist : n \in DOMAIN disk}
InvIter == \A h \in Lineages : IterIndex(h)
InvPrior == \A h \in Lineages : PriorOnce(h)
InvCalls == obj.calls = obj.evals /\ (\A h \in Lineages : CallsMonotone(h)) /\ (obj.hist # <<>> => obj.hist[Len(obj.hist)].calls = obj.evals)
InvFiles == \A n \in DOMAIN disk : disk[n].t = Len(disk[n].hist) /\ (n < Final => disk[n].t = n)
InvOneLineage == \A g, h \in Lineages : \A k \in 1..Len(g) : k <= Len(h) => g[k] = h[k]
InvResults == obj.cached /\ ~run.on /\ cmds[Len(cmds)] = <<"read">> => obj.cache = obj.hist
InvStop == done => Len(obj.hist) >= Batches
StopExact == run.on /\ ~InWarm /\ Len(obj.hist) > run.need => Len(obj.hist) = run.t0 \/ Len(obj.hist) <= Batches
AppendOnly == [][obj'.t >= 0 /\ obj.t >= 0 /\ Len(cmds') = Len(cmds) => SubSeq(obj'.hist, 1, Len(obj.hist)) = obj.hist]_vars
RunsEnd == run.on ~> ~run.on
\* command sequences handed to the conformance driver
EmitDone == (~run.on /\ Len(cmds) = MaxCmds) => PrintT(<<"CMD", cmds>>)
=============================================================================
