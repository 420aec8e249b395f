---------------------------- MODULE MC_Checkpoint ----------------------------
(***************************************************************************)
(* The save algorithm, operation by operation: write K chunks to a          *)
(* temporary file (through a buffer), flush, sync, close, rename.  At every *)
(* instant, whatever is lost in a crash, the target holds the old or the    *)
(* new state.  After a crash the next save starts from what survived.       *)
(* Variants (Algo) without one of the ingredients violate it.               *)
(***************************************************************************)
EXTENDS Checkpoint, TLC
CONSTANTS K, Algo, MaxSaves
VARIABLES f, c, pc, written, saves, target
vars == <<f, c, pc, written, saves, target>>
Paths == {"a", "b", "a.temp", "b.temp"}
Targets == {"a", "b"}
Temp(p) == IF Algo = "inplace" THEN p ELSE IF Algo = "sharedtemp" /\ p = "b" THEN "a" ELSE IF p = "a" THEN "a.temp" ELSE "b.temp"
O(name, p, q, fd) == [op |-> name, p |-> p, q |-> q, fd |-> fd, trunc |-> TRUE]
Ctx(fs, t) == [target |-> t, init |-> fs, new |-> 0, total |-> 0, states |-> {p \in Targets : fs.dir[p] # 0}]
Settle(fs) == [fs EXCEPT !.past = {fs.dir}, !.fds = [x \in {} |-> 0], !.ino = [i \in 1..Len(fs.ino) |-> [w |-> 0, s |-> 0]]]
Init == \E ex \in {<<>>, <<"a">>, <<"a", "b">>, <<"a", "a.temp">>} :
          /\ f = Fs0(Paths, ex) /\ target \in Targets /\ c = Ctx(f, target) /\ pc = "open" /\ written = 0 /\ saves = 0
Step(o, next) == f' = Apply(f, o) /\ pc' = next /\ UNCHANGED <<saves, target>>
\* the inode being written becomes "new" once known
Open == /\ pc = "open" /\ Step(O("open", Temp(target), "", 3), "write") /\ written' = 0
        /\ c' = [c EXCEPT !.new = f'.fds[3], !.total = K + f'.ino[f'.fds[3]].w]
Write == /\ pc = "write" /\ written < K - (IF Algo = "noflush" THEN 1 ELSE 0) /\ Step(O("write", "", "", 3), "write") /\ written' = written + 1 /\ UNCHANGED c
Sync == /\ pc = "write" /\ written = K - (IF Algo = "noflush" THEN 1 ELSE 0)
        /\ (IF Algo = "nosync" THEN f' = f /\ pc' = "rename" /\ UNCHANGED <<saves, target>> ELSE Step(O("fsync", "", "", 3), "rename"))
        /\ UNCHANGED <<c, written>>
Rename == /\ pc = "rename"
          /\ (IF Temp(target) = target THEN f' = f /\ pc' = "late" /\ UNCHANGED <<saves, target>> ELSE Step(O("rename", Temp(target), target, -1), "late"))
          /\ UNCHANGED <<c, written>>
\* data still buffered reaches the file when it is closed
Late == /\ pc = "late" /\ (IF written < K THEN Step(O("write", "", "", 3), "done") /\ written' = K ELSE f' = f /\ pc' = "done" /\ UNCHANGED <<saves, target, written>>) /\ UNCHANGED c
\* process ends or power fails at any point: some durable directory, files possibly torn; saving starts again
NextSave == /\ saves < MaxSaves /\ pc = "done" /\ saves' = saves + 1 /\ target' \in Targets
            /\ f' = Settle(f) /\ c' = Ctx(f', target') /\ pc' = "open" /\ written' = 0
Crash == /\ saves < MaxSaves /\ pc # "done" /\ saves' = saves + 1 /\ target' \in Targets
         /\ \E d \in f.past : f' = Settle([f EXCEPT !.dir = d])
         /\ c' = Ctx(f', target') /\ pc' = "open" /\ written' = 0
Next == Open \/ Write \/ Sync \/ Rename \/ Late \/ NextSave \/ Crash
Safe == InstantBad(c, f) = {}
Completes == pc = "done" => IsNew(c, f, f.dir[target])
=============================================================================
