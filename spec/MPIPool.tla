------------------------------- MODULE MPIPool -------------------------------
(***************************************************************************)
(* The master/worker protocol of the MPI pool at the level of messages and  *)
(* task executions.  Rank 0 is the master, 1..W the workers.  A state is    *)
(*   args   argument of every task of the current map call                  *)
(*   open   the map call has not returned yet                               *)
(*   owed   [worker -> tag of the task message it has not answered, or None]*)
(*   ran    [task position -> how often it was executed in this call]       *)
(*   told   workers that were told to quit,  left: workers that have exited *)
(* Every operation is judged; the design model MC_MPIPool takes the steps   *)
(* of the algorithm and shows that all of them pass.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Clause
NoTag == -1
Value(a, none) == IF none /\ a % 3 = 0 THEN -1 ELSE 3 * a + 1

Start(W) == [W |-> W, args |-> <<>>, none |-> FALSE, open |-> FALSE, owed |-> [w \in 1..W |-> NoTag],
             ran |-> <<>>, busy |-> [w \in 1..W |-> FALSE], told |-> {}, left |-> {}, closed |-> FALSE]

OpBad(s, o) ==
  CASE o.op = "map" -> Cl("C14.map-after-return", ~s.open /\ \A w \in 1..s.W : s.owed[w] = NoTag)
    [] o.op = "send" /\ o.rank = 0 /\ ~o.quit ->
         IF o.dst \notin 1..s.W THEN {"C14.only-workers-get-tasks"}
         ELSE Cl("C14.sent-to-idle-worker", s.owed[o.dst] = NoTag /\ o.dst \notin s.told)
              \cup Cl("C14.sends-inside-map", s.open)
    [] o.op = "send" /\ o.rank = 0 /\ o.quit ->
         Cl("C14.close-only-workers", o.dst \in 1..s.W) \cup Cl("C14.quit-when-idle", o.dst \in 1..s.W => s.owed[o.dst] = NoTag /\ o.dst \notin s.told)
    [] o.op = "exec" ->
         Cl("C14.executed-by-worker", o.rank \in 1..s.W)
         \cup Cl("C14.executed-by-assigned-worker", o.rank \in 1..s.W => s.owed[o.rank] # NoTag)
         \cup Cl("C14.executed-once", \E k \in 1..Len(s.args) : s.args[k] = o.arg /\ s.ran[k] = 0)
    [] o.op = "send" /\ o.rank # 0 ->
         Cl("C14.answers-to-master", o.dst = 0)
         \cup Cl("C14.answers-own-tag", o.rank \in 1..s.W /\ s.owed[o.rank] = o.tag)
    [] o.op = "ret" ->
         Cl("C14.results-in-task-order", o.res = [k \in 1..Len(s.args) |-> Value(s.args[k], s.none)])
         \cup Cl("C14.every-task-done", \A k \in 1..Len(s.args) : s.ran[k] = 1)
         \cup Cl("C14.nobody-owes-an-answer", \A w \in 1..s.W : s.owed[w] = NoTag)
    [] o.op = "exit" -> IF o.rank = 0 THEN {} ELSE Cl("C14.leaves-only-when-told", o.rank \in s.told)
    [] o.op = "closed" -> Cl("C14.close-tells-every-worker", s.told = 1..s.W)
    [] o.op = "past-exit" -> {"C14.workers-never-pass-the-constructor"}
    [] o.op = "exc" -> {"C14.no-exception"}
    [] OTHER -> {}

First(s, a) == CHOOSE k \in 1..Len(s.args) : s.args[k] = a /\ s.ran[k] = 0 /\ \A j \in 1..k - 1 : ~(s.args[j] = a /\ s.ran[j] = 0)
OpNext(s, o) ==
  CASE o.op = "map" -> [s EXCEPT !.args = o.args, !.none = o.none, !.open = TRUE, !.ran = [k \in 1..Len(o.args) |-> 0]]
    [] o.op = "send" /\ o.rank = 0 /\ o.dst \in 1..s.W ->
         IF o.quit THEN [s EXCEPT !.told = @ \cup {o.dst}] ELSE [s EXCEPT !.owed[o.dst] = o.tag]
    [] o.op = "exec" -> IF \E k \in 1..Len(s.args) : s.args[k] = o.arg /\ s.ran[k] = 0
                        THEN LET k == First(s, o.arg) IN [s EXCEPT !.ran[k] = 1] ELSE s
    [] o.op = "recv" /\ o.dst = 0 /\ o.rank \in 1..s.W -> [s EXCEPT !.owed[o.rank] = NoTag]
    [] o.op = "ret" -> [s EXCEPT !.open = FALSE]
    [] o.op = "exit" -> [s EXCEPT !.left = @ \cup {o.rank}]
    [] OTHER -> s
EndBad(s, outcome) ==
  Cl("C14.always-returns", outcome = "ok") \cup Cl("C14.every-worker-leaves", outcome = "ok" => s.left = 0..s.W)

RECURSIVE RunBad(_, _)
RunBad(s, r) == \* r: [ops, at, outcome]
  IF r.at > Len(r.ops) THEN EndBad(s, r.outcome)
  ELSE LET o == r.ops[r.at]
           bad == OpBad(s, o)
       IN bad \cup (IF bad # {} THEN {} ELSE RunBad(OpNext(s, o), [r EXCEPT !.at = @ + 1]))
=============================================================================
