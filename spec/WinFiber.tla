------------------------------- MODULE WinFiber -------------------------------
(* Fibers of the Windows API, as far as boost.context uses them and as they are
   documented: which calls are allowed in which state, and what they change.
   harness/winapi.cpp implements this API on Linux; the Windows code of the library is
   built against it.  The calls it makes while it executes behaviours of Context.tla are
   recorded, and every recorded sequence has to be a behaviour of this specification
   (Spec with Traces); without traces (Free) TLC explores all allowed sequences.
   A step that is not allowed leads to the state with bad = TRUE.                      *)
EXTENDS Naturals, Sequences
CONSTANTS NTH,       \* threads
          NFB,       \* fibers
          Traces     \* <<number, recorded sequence>>: sequences of <<call, thread, fiber, result>>, result 0: failed
VARIABLES s, log, i, bad       \* log: the recorded sequence
vars == <<s, log, i, bad>>
Threads == 1..NTH
Fibers == 1..NFB
Convert == 1  Back == 2  Create == 5  Switch == 6  Delete == 7
UserConvert == 8  UserBack == 9           \* made by the program, not by the library
End == 10                                 \* no call: the thread has ended

S0 == [cur  |-> [t \in Threads |-> 0],       \* fiber the thread runs, 0: it is no fiber
       user |-> [t \in Threads |-> FALSE],   \* the program has converted it itself
       st   |-> [f \in Fibers |-> 0],        \* 0 not made, 1 usable, 2 gone
       main |-> [f \in Fibers |-> FALSE],    \* a converted thread
       run  |-> [f \in Fibers |-> 0]]        \* thread it runs on
No == [s |-> S0, ok |-> FALSE]
Yes(S) == [s |-> S, ok |-> TRUE]

DoConvert(S, t, f, u) ==
  IF S.cur[t] = 0 /\ S.st[f] = 0
  THEN Yes([S EXCEPT !.cur[t] = f, !.user[t] = u, !.st[f] = 1, !.main[f] = TRUE, !.run[f] = t])
  ELSE No
(* a thread that was a fiber before the library was used has to stay one *)
DoBack(S, t, f, u) ==
  IF S.cur[t] = f /\ f # 0 /\ S.main[f] /\ S.user[t] = u
  THEN Yes([S EXCEPT !.cur[t] = 0, !.user[t] = FALSE, !.st[f] = 2, !.run[f] = 0])
  ELSE No
DoCreate(S, t, f) == IF S.st[f] = 0 THEN Yes([S EXCEPT !.st[f] = 1]) ELSE No
DoSwitch(S, t, f) ==
  IF S.cur[t] # 0 /\ f # 0 /\ S.st[f] = 1 /\ S.run[f] = 0
  THEN Yes([S EXCEPT !.run[S.cur[t]] = 0, !.run[f] = t, !.cur[t] = f])
  ELSE No
DoDelete(S, t, f) ==
  IF f # 0 /\ S.st[f] = 1 /\ S.run[f] = 0 /\ ~S.main[f] THEN Yes([S EXCEPT !.st[f] = 2]) ELSE No
(* what belongs to a converted thread is released by converting it back *)
DoEnd(S, t) ==
  IF S.cur[t] = 0 THEN Yes(S)
  ELSE IF S.main[S.cur[t]] /\ S.user[t]
       THEN Yes([S EXCEPT !.st[S.cur[t]] = 2, !.run[S.cur[t]] = 0, !.cur[t] = 0, !.user[t] = FALSE])
       ELSE No
Apply(S, e) ==
  LET t == e[2] f == e[3] IN
  IF e[4] = 0 THEN IF e[1] = Convert THEN [s |-> S, ok |-> S.cur[t] # 0] ELSE Yes(S)
  ELSE CASE e[1] = Convert -> DoConvert(S, t, f, FALSE)
         [] e[1] = UserConvert -> DoConvert(S, t, f, TRUE)
         [] e[1] = Back -> DoBack(S, t, f, FALSE)
         [] e[1] = UserBack -> DoBack(S, t, f, TRUE)
         [] e[1] = Create -> DoCreate(S, t, f)
         [] e[1] = Switch -> DoSwitch(S, t, f)
         [] e[1] = Delete -> DoDelete(S, t, f)
         [] e[1] = End -> DoEnd(S, t)
         [] OTHER -> Yes(S)

Init == s = S0 /\ i = 0 /\ bad = FALSE /\ log \in IF Traces = {} THEN {<<0, <<>>>>} ELSE Traces
Next ==
  /\ ~bad /\ i < Len(log[2])
  /\ LET r == Apply(s, log[2][i + 1]) IN
       /\ bad' = ~r.ok
       /\ s' = IF r.ok THEN r.s ELSE s
  /\ i' = i + 1 /\ log' = log
Spec == Init /\ [][Next]_vars

(* every allowed call *)
FreeNext == /\ \E c \in {Convert, Back, Create, Switch, Delete, UserConvert, UserBack, End}, t \in Threads, f \in Fibers :
                 LET r == Apply(s, <<c, t, f, 1>>) IN r.ok /\ s' = r.s
            /\ UNCHANGED <<log, i, bad>>
Free == Init /\ [][FreeNext]_vars

(*----------------------------- properties --------------------------------*)
Allowed == ~bad
OneThread == \A f \in Fibers : s.run[f] # 0 => s.cur[s.run[f]] = f
OneFiber == \A t \in Threads : s.cur[t] # 0 => s.run[s.cur[t]] = t /\ s.st[s.cur[t]] = 1
GoneNotRunning == \A f \in Fibers : s.st[f] = 2 => s.run[f] = 0
(* a created fiber may run on any thread, and so may a converted thread *)
=============================================================================
