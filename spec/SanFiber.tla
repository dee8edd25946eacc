------------------------------- MODULE SanFiber -------------------------------
(* What the address and the thread sanitizer have to be told about contexts: the calls of
   __sanitizer_start/finish_switch_fiber and __tsan_*_fiber, in which state each is right
   and what it changes.  harness/sanapi.cpp stands in for the sanitizers: the annotated
   library is built against it, and the calls it makes while it executes behaviours of
   Context.tla are recorded together with what is really executed on which stack.  Every
   recorded sequence has to be a behaviour of this specification (Spec with Traces);
   without traces (Free) TLC explores all right sequences.
   A step that is not right leads to the state with bad = TRUE.                          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NTH,       \* threads
          NR,        \* stacks: those of threads are THREAD0 + thread
          THREAD0,
          NFB,       \* fibers of the thread sanitizer
          TSAN,      \* the thread sanitizer is told, too
          Traces     \* <<number, recorded sequence>>: sequences of <<call, thread, a, b>>
VARIABLES s, log, i, bad       \* log: the recorded sequence
vars == <<s, log, i, bad>>
Threads == 1..NTH
Stacks == 1..NR
Fibers == 1..NFB
Start == 1  Finish == 2  Create == 3  Switch == 4  Destroy == 5  Main == 6
Run == 7  Alloc == 8  Release == 9  Exit == 10

\* of a stack
Unused == 0  Fresh == 1  Suspended == 2  Ended == 3  Running == 4
S0 == [st   |-> [x \in Stacks |-> IF x > THREAD0 THEN Running ELSE Unused],
       tok  |-> [x \in Stacks |-> 0],       \* what finish has to be given for it
       cur  |-> [t \in Threads |-> 0],      \* stack the address sanitizer takes for the current one
       pend |-> [t \in Threads |-> 0],      \* stack announced by start
       fst  |-> [f \in Fibers |-> 0],       \* 0 not made, 1 usable, 2 gone
       fmain|-> [f \in Fibers |-> FALSE],
       fcur |-> [t \in Threads |-> 0],
       own  |-> [f \in Fibers |-> 0]]       \* stack that runs while it is current
No == [s |-> S0, ok |-> FALSE]
Yes(S) == [s |-> S, ok |-> TRUE]
IsThread(x) == x > THREAD0
Here(S, t) == IF S.cur[t] = 0 THEN THREAD0 + t ELSE S.cur[t]
Live(S) == {f \in Fibers : S.fst[f] = 1 /\ ~S.fmain[f]}
Used(S) == {x \in Stacks : S.st[x] # Unused /\ ~IsThread(x)}
Counted(S, n) == TSAN => Cardinality(Live(S)) + n = Cardinality(Used(S))

(* leave the current stack, for ever if nothing is kept for it *)
DoStart(S, t, x, k) ==
  LET h == Here(S, t) IN
  IF /\ S.pend[t] = 0 /\ x \in Stacks /\ x # h
     /\ S.st[x] \in {Fresh, Suspended} /\ \A u \in Threads : S.pend[u] # x
     /\ (IsThread(h) => k # 0)
  THEN Yes([S EXCEPT !.pend[t] = x, !.cur[t] = h, !.tok[h] = k, !.st[h] = IF k = 0 THEN Ended ELSE Suspended])
  ELSE No
(* executed on the announced stack, with what was kept for it *)
Bound(S, t, x) == S.fcur[t] = 0 \/ S.own[S.fcur[t]] \in {0, x}
Bind(S, t, x) == IF S.fcur[t] = 0 THEN S.own ELSE [S.own EXCEPT ![S.fcur[t]] = x]
DoFinish(S, t, x, k) ==
  IF x # 0 /\ S.pend[t] = x /\ S.tok[x] = k /\ S.st[x] \in {Fresh, Suspended} /\ Bound(S, t, x)
  THEN Yes([S EXCEPT !.pend[t] = 0, !.cur[t] = x, !.st[x] = Running, !.tok[x] = 0, !.own = Bind(S, t, x)])
  ELSE No
DoMain(S, t, f) ==
  IF S.fcur[t] = 0 /\ S.fst[f] = 0
  THEN Yes([S EXCEPT !.fcur[t] = f, !.fst[f] = 1, !.fmain[f] = TRUE, !.own[f] = THREAD0 + t]) ELSE No
DoCreate(S, t, f) == IF S.fst[f] = 0 THEN Yes([S EXCEPT !.fst[f] = 1]) ELSE No
(* flags # 0: the sanitizer would not order what is done before and after the switch *)
DoSwitch(S, t, f, flags) ==
  IF f \in Fibers /\ flags = 0 /\ S.fst[f] = 1 /\ S.fcur[t] # f /\ \A u \in Threads : S.fcur[u] # f
  THEN Yes([S EXCEPT !.fcur[t] = f]) ELSE No
DoDestroy(S, t, f) ==
  IF f \in Fibers /\ S.fst[f] = 1 /\ ~S.fmain[f] /\ \A u \in Threads : S.fcur[u] # f
  THEN Yes([S EXCEPT !.fst[f] = 2]) ELSE No
(* the program is executed on stack x: both sanitizers have to know *)
DoRun(S, t, x) ==
  IF x # 0 /\ S.pend[t] = 0 /\ Here(S, t) = x /\ Bound(S, t, x) /\ Counted(S, 0)
  THEN Yes([S EXCEPT !.cur[t] = x, !.st[x] = Running]) ELSE No
DoAlloc(S, x) == IF S.st[x] = Unused THEN Yes([S EXCEPT !.st[x] = Fresh]) ELSE No
(* nothing kept for a stack outlives it *)
DoRelease(S, x) ==
  IF /\ S.st[x] \in {Fresh, Ended} /\ S.tok[x] = 0
     /\ \A f \in Fibers : S.own[f] = x => S.fst[f] # 1
     /\ Counted(S, 1)
  THEN Yes([S EXCEPT !.st[x] = Unused, !.own = [f \in Fibers |-> IF S.own[f] = x THEN 0 ELSE S.own[f]]])
  ELSE No
DoExit(S, t, x) == IF S.pend[t] = 0 /\ Here(S, t) = x THEN Yes(S) ELSE No

Apply(S, e) ==
  LET t == e[2] a == e[3] b == e[4] IN
  CASE e[1] = Start -> DoStart(S, t, a, b)
    [] e[1] = Finish -> DoFinish(S, t, a, b)
    [] e[1] = Create -> DoCreate(S, t, a)
    [] e[1] = Switch -> DoSwitch(S, t, a, b)
    [] e[1] = Destroy -> DoDestroy(S, t, a)
    [] e[1] = Main -> DoMain(S, t, a)
    [] e[1] = Run -> DoRun(S, t, a)
    [] e[1] = Alloc -> DoAlloc(S, a)
    [] e[1] = Release -> DoRelease(S, a)
    [] e[1] = Exit -> DoExit(S, t, a)

Init == s = S0 /\ i = 0 /\ bad = FALSE /\ log \in IF Traces = {} THEN {<<0, <<>>>>} ELSE Traces
Next ==
  /\ ~bad /\ i < Len(log[2])
  /\ LET r == Apply(s, log[2][i + 1]) IN
       /\ bad' = ~r.ok
       /\ s' = IF r.ok THEN r.s ELSE s
  /\ i' = i + 1 /\ log' = log
Spec == Init /\ [][Next]_vars

(* every right call *)
FreeNext == /\ \/ \E c \in {Start, Finish, Create, Switch, Destroy, Main}, t \in Threads, a \in Stacks \cup Fibers, b \in 0..1 :
                    /\ (c \in {Start, Finish} => a \in Stacks /\ (IF c = Finish THEN b = s.tok[a] ELSE TRUE))
                    /\ (c \notin {Start, Finish} => a \in Fibers /\ b = 0)
                    /\ LET r == Apply(s, <<c, t, a, b>>) IN r.ok /\ s' = r.s
               \/ \E c \in {Run, Alloc, Release, Exit}, t \in Threads, x \in Stacks :
                    /\ (c = Alloc => ~IsThread(x))
                    /\ LET r == Apply(s, <<c, t, x, 0>>) IN r.ok /\ s' = r.s
            /\ UNCHANGED <<log, i, bad>>
Free == Init /\ [][FreeNext]_vars

(*----------------------------- properties --------------------------------*)
Right == ~bad
At(t) == IF s.pend[t] # 0 THEN s.pend[t] ELSE Here(s, t)
OneThread == \A t, u \in Threads : t # u => At(t) # At(u)
OneFiber == \A t, u \in Threads : t # u /\ s.fcur[t] # 0 => s.fcur[t] # s.fcur[u]
KeptOnlyWhileSuspended == \A x \in Stacks : s.tok[x] # 0 => s.st[x] = Suspended
NothingLeft == \A f \in Fibers : s.own[f] # 0 => s.st[s.own[f]] # Unused
=============================================================================
