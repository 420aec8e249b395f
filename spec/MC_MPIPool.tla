------------------------------ MODULE MC_MPIPool ------------------------------
(***************************************************************************)
(* The pool's algorithm, message by message, under every schedule: workers  *)
(* receive, execute and answer (synchronously) at any time, the master      *)
(* sends, polls and receives from any ready worker.  Invariant: every       *)
(* operation passes the judgement of MPIPool.tla.  Liveness: every run      *)
(* finishes and all workers leave.                                          *)
(***************************************************************************)
EXTENDS MPIPool, TLC
CONSTANTS W, Maps
VARIABLES s,        \* judgement state
          bad,      \* clauses violated by the last operation
          todo,     \* maps still to be called
          pc,       \* master: "call", "loop", "poll", "recv", "close", "done"
          queue,    \* tasks not sent yet (positions, the last one goes first)
          idle,     \* workers the master believes idle
          got,      \* [position -> result or NoRes]
          inbox,    \* [worker -> <<tag, argument>>, <<>> or the quit message <<-1, -1>>]
          wst,      \* [worker -> "wait" | "ran" | "post" | "gone"]
          out       \* [worker -> answer <<tag, value>> waiting to be received]
MapsQuick == {<<>>, <<<<>>>>, <<<<1>>, <<>>, <<5, 6>>>>, <<<<1, 2, 2>>, <<3, 4, 5, 6>>>>, <<<<1, 2, 3, 4, 5>>>>}
MapsDeep == MapsQuick \cup {<<<<1, 2, 3, 4, 5, 6>>, <<7>>>>, <<<<1, 1, 1>>, <<1, 1>>, <<2, 3, 4, 5, 6>>>>}
vars == <<s, bad, todo, pc, queue, idle, got, inbox, wst, out>>
Ws == 1..W
NoRes == -2
Do(o) == bad' = OpBad(s, o) /\ s' = OpNext(s, o)
Op(name) == [op |-> name, rank |-> 0, dst |-> -1, tag |-> -1, quit |-> FALSE, arg |-> -1, args |-> <<>>, none |-> FALSE, res |-> <<>>]

Init == /\ s = Start(W) /\ bad = {} /\ todo \in Maps /\ pc = "call" /\ queue = <<>> /\ idle = Ws /\ got = <<>>
        /\ inbox = [w \in Ws |-> <<>>] /\ wst = [w \in Ws |-> "wait"] /\ out = [w \in Ws |-> <<>>]

Call == /\ pc = "call" /\ todo # <<>>
        /\ Do([Op("map") EXCEPT !.args = Head(todo)])
        /\ queue' = [k \in 1..Len(Head(todo)) |-> k] /\ got' = [k \in 1..Len(Head(todo)) |-> NoRes]
        /\ idle' = Ws /\ todo' = Tail(todo) /\ pc' = "loop" /\ UNCHANGED <<inbox, wst, out>>
Pending == \E k \in 1..Len(got) : got[k] = NoRes
Return == /\ pc = "loop" /\ ~Pending
          /\ Do([Op("ret") EXCEPT !.res = got]) /\ pc' = "call" /\ UNCHANGED <<todo, queue, idle, got, inbox, wst, out>>
Send(w) == /\ pc = "loop" /\ Pending /\ w \in idle /\ queue # <<>> /\ inbox[w] = <<>>
           /\ LET k == queue[Len(queue)] IN
              /\ Do([Op("send") EXCEPT !.dst = w, !.tag = k])
              /\ inbox' = [inbox EXCEPT ![w] = <<k, s.args[k]>>]
              /\ queue' = SubSeq(queue, 1, Len(queue) - 1)
           /\ idle' = idle \ {w} /\ pc' = "poll" /\ UNCHANGED <<todo, got, wst, out>>
NoSend == /\ pc = "loop" /\ Pending /\ (idle = {} \/ queue = <<>>) /\ pc' = "poll"
          /\ bad' = {} /\ UNCHANGED <<s, todo, queue, idle, got, inbox, wst, out>>
Ready == {w \in Ws : out[w] # <<>>}
\* with tasks left: a non-blocking probe that may find nothing; otherwise wait
PollEmpty == /\ pc = "poll" /\ queue # <<>> /\ Ready = {} /\ pc' = "loop"
             /\ bad' = {} /\ UNCHANGED <<s, todo, queue, idle, got, inbox, wst, out>>
Recv(w) == /\ pc = "poll" /\ w \in Ready
           /\ Do([Op("recv") EXCEPT !.rank = w, !.dst = 0, !.tag = out[w][1]])
           /\ got' = [got EXCEPT ![out[w][1]] = out[w][2]] /\ idle' = idle \cup {w}
           /\ out' = [out EXCEPT ![w] = <<>>] /\ wst' = [wst EXCEPT ![w] = "wait"] /\ pc' = "loop"
           /\ UNCHANGED <<todo, queue, inbox>>
BeginClose == /\ pc = "call" /\ todo = <<>> /\ pc' = "close" /\ bad' = {} /\ UNCHANGED <<s, todo, queue, idle, got, inbox, wst, out>>
Quit(w) == /\ pc = "close" /\ w \notin s.told
           /\ Do([Op("send") EXCEPT !.dst = w, !.quit = TRUE, !.tag = 0])
           /\ inbox' = [inbox EXCEPT ![w] = <<-1, -1>>] /\ UNCHANGED <<todo, pc, queue, idle, got, wst, out>>
Closed == /\ pc = "close" /\ s.told = Ws /\ Do(Op("closed")) /\ pc' = "done" /\ UNCHANGED <<todo, queue, idle, got, inbox, wst, out>>
\* a worker receives its message and executes, then answers with the message's tag, blocked until received
Exec(w) == /\ wst[w] = "wait" /\ inbox[w] # <<>> /\ inbox[w][1] # -1
           /\ Do([Op("exec") EXCEPT !.rank = w, !.arg = inbox[w][2]])
           /\ wst' = [wst EXCEPT ![w] = "ran"] /\ UNCHANGED <<todo, pc, queue, idle, got, inbox, out>>
Answer(w) == /\ wst[w] = "ran"
             /\ Do([Op("send") EXCEPT !.rank = w, !.dst = 0, !.tag = inbox[w][1]])
             /\ out' = [out EXCEPT ![w] = <<inbox[w][1], Value(inbox[w][2], s.none)>>]
             /\ inbox' = [inbox EXCEPT ![w] = <<>>] /\ wst' = [wst EXCEPT ![w] = "post"] /\ UNCHANGED <<todo, pc, queue, idle, got>>
Leave(w) == /\ wst[w] = "wait" /\ inbox[w] # <<>> /\ inbox[w][1] = -1
            /\ Do([Op("exit") EXCEPT !.rank = w]) /\ wst' = [wst EXCEPT ![w] = "gone"] /\ inbox' = [inbox EXCEPT ![w] = <<>>]
            /\ UNCHANGED <<todo, pc, queue, idle, got, out>>
Next == \/ Call \/ Return \/ NoSend \/ PollEmpty \/ BeginClose \/ Closed
        \/ \E w \in Ws : Send(w) \/ Recv(w) \/ Quit(w) \/ Exec(w) \/ Answer(w) \/ Leave(w)
Master == Call \/ Return \/ NoSend \/ BeginClose \/ Closed \/ \E w \in Ws : Send(w) \/ Recv(w) \/ Quit(w)
Fair == WF_vars(Master) /\ \A w \in Ws : WF_vars(Exec(w) \/ Answer(w) \/ Leave(w)) /\ SF_vars(Recv(w))
Spec == Init /\ [][Next]_vars /\ Fair
NothingBad == bad = {}
Finished == pc = "done" /\ \A w \in Ws : wst[w] = "gone"
Terminates == <>Finished
NoDeadlock == ENABLED Next \/ Finished
=============================================================================
