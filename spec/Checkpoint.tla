----------------------------- MODULE Checkpoint -----------------------------
(***************************************************************************)
(* A file system with volatile and durable state, and what saving a state   *)
(* to a path may do to it.                                                  *)
(*   dir     [path -> inode number, 0 when absent]      (what readers see)  *)
(*   past    the directory contents that may be durable: the one at the     *)
(*           last directory sync and every later one, in order              *)
(*   ino     inodes: [w |-> number of modifications of its data,            *)
(*                    s |-> how many of them are known to be on disk]       *)
(*   fds     [descriptor -> inode]                                          *)
(* A crash leaves some directory of `past` and, for every inode, the synced *)
(* data and an arbitrary part of the rest.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Clause

Fs0(paths, existing) ==   \* existing: sequence of paths that hold a file, inode i belongs to existing[i]
  LET d == [p \in paths |-> IF \E i \in 1..Len(existing) : existing[i] = p THEN CHOOSE i \in 1..Len(existing) : existing[i] = p ELSE 0]
  IN [dir |-> d, past |-> {d}, ino |-> [i \in 1..Len(existing) |-> [w |-> 0, s |-> 0]], fds |-> [x \in {} |-> 0]]

SetDir(f, d) == [f EXCEPT !.dir = d, !.past = @ \cup {d}]
SetFd(f, fd, i) == [f EXCEPT !.fds = [x \in DOMAIN f.fds \cup {fd} |-> IF x = fd THEN i ELSE f.fds[x]]]
Touch(f, i) == [f EXCEPT !.ino[i].w = @ + 1]

Apply(f, o) ==
  CASE o.op = "open" ->
         LET i == f.dir[o.p] IN
         IF i = 0 THEN LET n == Len(f.ino) + 1
                           g == [f EXCEPT !.ino = Append(@, [w |-> 0, s |-> 0])]
                       IN SetFd(SetDir(g, [g.dir EXCEPT ![o.p] = n]), o.fd, n)
         ELSE SetFd(IF o.trunc THEN Touch(f, i) ELSE f, o.fd, i)
    [] o.op = "write" -> Touch(f, f.fds[o.fd])
    [] o.op = "trunc" -> Touch(f, IF o.fd >= 0 THEN f.fds[o.fd] ELSE f.dir[o.p])
    [] o.op = "fsync" -> IF o.fd \in DOMAIN f.fds
                         THEN LET i == f.fds[o.fd] IN [f EXCEPT !.ino[i].s = f.ino[i].w]
                         ELSE [f EXCEPT !.past = {f.dir}]           \* a directory
    [] o.op = "rename" -> SetDir(f, [f.dir EXCEPT ![o.q] = f.dir[o.p], ![o.p] = 0])
    [] o.op = "link" -> SetDir(f, [f.dir EXCEPT ![o.q] = f.dir[o.p]])
    [] o.op = "unlink" -> SetDir(f, [f.dir EXCEPT ![o.p] = 0])
    [] OTHER -> f

RECURSIVE ApplyAll(_, _)
ApplyAll(f, ops) == IF ops = <<>> THEN f ELSE ApplyAll(Apply(f, Head(ops)), Tail(ops))

(* c: [target |-> path, init |-> initial file system, new |-> inode holding   *)
(* the new state, total |-> number of modifications that make it complete]    *)
IsOld(c, f, i) == i = c.init.dir[c.target] /\ (i # 0 => f.ino[i].w = 0)
IsNew(c, f, i) == i # 0 /\ i = c.new /\ f.ino[i].w = c.total
VisibleOK(c, f) == LET i == f.dir[c.target] IN IsOld(c, f, i) \/ IsNew(c, f, i)
\* after a power loss
DurableOK(c, f) == \A d \in f.past : LET i == d[c.target] IN IsOld(c, f, i) \/ (IsNew(c, f, i) /\ f.ino[i].s = c.total)
Others(c) == {p \in DOMAIN c.init.dir : p # c.target /\ p \in c.states}
OthersOK(c, f) == \A p \in Others(c) : \A d \in f.past \cup {f.dir} : d[p] = c.init.dir[p] /\ (d[p] # 0 => f.ino[d[p]].w = 0)

InstantBad(c, f) ==
  Cl("C10.visible-old-or-new", VisibleOK(c, f))
  \cup Cl("C10.durable-old-or-new", DurableOK(c, f))
  \cup Cl("C10.other-states-untouched", OthersOK(c, f))

RECURSIVE Instants(_, _, _)
Instants(c, f, ops) == InstantBad(c, f) \cup (IF ops = <<>> THEN {} ELSE Instants(c, Apply(f, Head(ops)), Tail(ops)))

\* a completed save: e.ops the recorded operations, e.paths, e.existing, e.states (paths that hold saved states)
SaveBad(e) ==
  LET paths == {e.paths[i] : i \in 1..Len(e.paths)}
      f0 == Fs0(paths, e.existing)
      fe == ApplyAll(f0, e.ops)
      n == fe.dir[e.target]
      c == [target |-> e.target, init |-> f0, new |-> n, total |-> IF n = 0 THEN 0 ELSE fe.ino[n].w,
            states |-> {e.states[i] : i \in 1..Len(e.states)}]
  IN Cl("C10.save-creates-file", n # 0) \cup Instants(c, f0, e.ops)

(* a save that was cut short (e.how) at operation e.k; seen: what loading the  *)
(* target gives afterwards; again: what it gives after one more, full save      *)
CutBad(e) ==
  Cl("C10.old-or-new-after-crash", e.seen \in {e.before, "new"})
  \cup Cl("C10.saved-means-new", e.finished => e.seen = "new")
  \cup Cl("C10.other-states-untouched", e.others)
  \cup Cl("C10.save-after-crash-works", e.again = "new")
=============================================================================
