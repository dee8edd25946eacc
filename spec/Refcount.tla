------------------------------ MODULE Refcount ------------------------------
(***************************************************************************)
(* Several threads copy and destroy the allocator objects of one pool.     *)
(* An operation starts, accesses the shared count, and ends; between any   *)
(* two accesses other threads may run.  The specification performs it in   *)
(* its first access; an implementation may take up to K accesses, the      *)
(* remaining ones are idle here.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, K, MaxOps, MaxHold, MaxCmds, Cmds
VARIABLES s, op, n
vars == <<s, op, n>>
T == 1..NT

Init == /\ s = [ hold |-> [t \in T |-> 1],       \* allocator objects of the thread
                 pc   |-> [t \in T |-> "idle"],
                 k    |-> [t \in T |-> 0],       \* accesses made in the current operation
                 ops  |-> [t \in T |-> 0],
                 cnt  |-> NT,
                 pool |-> TRUE,                  \* the pool exists
                 frees |-> 0,
                 end  |-> FALSE ]
        /\ op = <<"init">> /\ n = 0

RECURSIVE Sum(_, _)
Sum(f, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + Sum(f, X \ {x})
\* objects that nobody is destroying
Held(S) == Sum([t \in T |-> S.hold[t] - (IF S.pc[t] = "drop" THEN 1 ELSE 0)], T)
Idle(S) == \A t \in T : S.pc[t] = "idle"
Finished(S) == Idle(S) /\ \A t \in T : S.ops[t] = MaxOps \/ S.hold[t] = 0
\* what an observer can rely on: 1 the pool exists, 2 it is gone, 0 either
Must(S) == IF Held(S) > 0 THEN 1 ELSE IF Idle(S) THEN 2 ELSE 0
Step(a, t, S) ==
  LET S1 == [S EXCEPT !.end = Finished(S)] IN
  s' = S1 /\ n' = n + 1 /\ op' = <<a, t, Must(S1)>>

Start(t, what) ==
  /\ s.pc[t] = "idle" /\ s.hold[t] > 0 /\ s.ops[t] < MaxOps
  /\ what = "copy" => s.hold[t] < MaxHold
  /\ Step(IF what = "copy" THEN "StartCopy" ELSE "StartDrop", t,
          [s EXCEPT !.pc[t] = what, !.k[t] = 0, !.ops[t] = @ + 1])
Effect(S, t) ==
  IF S.pc[t] = "copy" THEN [S EXCEPT !.cnt = @ + 1]
  ELSE IF S.cnt = 1 THEN [S EXCEPT !.cnt = 0, !.pool = FALSE, !.frees = @ + 1]
  ELSE [S EXCEPT !.cnt = @ - 1]
Access(t) ==
  /\ s.pc[t] # "idle"
  /\ LET S1 == IF s.k[t] = 0 THEN Effect(s, t) ELSE s
         S2 == [S1 EXCEPT !.k[t] = @ + 1]
         S3 == IF S2.k[t] < K THEN S2
               ELSE [S2 EXCEPT !.pc[t] = "idle", !.k[t] = 0,
                               !.hold[t] = IF s.pc[t] = "copy" THEN @ + 1 ELSE @ - 1]
     IN Step("Access", t, S3)

Do(a) == /\ n < MaxCmds /\ ~s.end
         /\ CASE a = "StartCopy" -> \E t \in T : Start(t, "copy")
              [] a = "StartDrop" -> \E t \in T : Start(t, "drop")
              [] a = "Access" -> \E t \in T : Access(t)
Next == \E a \in Cmds : Do(a)
Spec == Init /\ [][Next]_vars

(*----------------------------- properties --------------------------------*)
ReleasedOnce == s.frees <= 1 /\ (s.pool <=> s.frees = 0)
LiveWhileHeld == Held(s) > 0 => s.pool
GoneAtEnd == (Idle(s) /\ Held(s) = 0) => ~s.pool
CountExact == Idle(s) => s.cnt = Held(s)
View == s
=============================================================================
