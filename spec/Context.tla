------------------------------ MODULE Context ------------------------------
(***************************************************************************)
(* Operational specification of boost.context at the level of its API.     *)
(*                                                                         *)
(* A state is a whole program in execution: contexts (the initial context  *)
(* of every thread and those created through the library), the frames on   *)
(* the stack of every context, the handles (fiber / continuation objects)  *)
(* held in frames, in global slots and in flight, the floating-point       *)
(* control environment of every context and the life of every stack.       *)
(*                                                                         *)
(* A command action (Resume, ResumeWith, New, Destroy, Throw, ...) is what *)
(* the running code of a context does next.  Everything the language and   *)
(* the library have to do because of it happens in internal steps:         *)
(* destruction of handles, forced unwinding, destructors, delivery of      *)
(* handles, termination.  A destructor may be "active": it then executes   *)
(* commands of its own, in a frame above the one being left.               *)
(*                                                                         *)
(* Commands of different threads interleave arbitrarily.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
    NT,         \* threads; context t is the initial context of thread t
    NC,         \* contexts, NT initial ones included
    NS,         \* global slots that can hold a handle
    MaxDepth,   \* frames on one stack that commands may build
    MaxCmds,    \* commands in a behaviour
    NFP,        \* number of floating-point environments
    Cmds        \* names of the enabled commands

VARIABLES
    s,          \* the program state, see Init
    op,         \* label of the step that led here (not part of the state proper)
    n           \* commands executed so far

vars == <<s, op, n>>

Ctx     == 1..NC
Threads == 1..NT
IsMain(c) == c \in Threads
Locs    == 0..NS           \* 0: handle variable of the running frame, i: slot i

(***************************************************************************)
(* Frames.  k: kind                                                        *)
(*   base   the context function itself                                    *)
(*   call   a function called by the frame below                           *)
(*   try    as call, but handles the exceptions of the program             *)
(*   ontop  a function run on top by resume_with                           *)
(*   dtor   an active destructor of an object of the frame below           *)
(* acc: the handle variable of the frame; g: "p"assive or "a"ctive guard   *)
(* object declared before it; sg: 0 executing, 1 leaving: acc not yet      *)
(* destroyed, 2 guard not yet destroyed, 3 frame can go; ex: how it is     *)
(* left ("pop","unw","exc"); val: handle travelling with that (returned or *)
(* in the exception), eid: identity of the exception; rw: target of the    *)
(* resume_with in which the frame is suspended.                            *)
(***************************************************************************)
Frame(k, h) == [k |-> k, acc |-> h, g |-> "p", sg |-> 0, ex |-> "", val |-> 0, eid |-> 0, rw |-> 0]

Init0 ==
  [ st   |-> [c \in Ctx |-> IF IsMain(c) THEN "live" ELSE "none"],
    mode |-> [c \in Ctx |-> IF IsMain(c) THEN "run" ELSE "idle"],  \* idle run sus wait
    fr   |-> [c \in Ctx |-> IF IsMain(c) THEN <<Frame("base", 0)>> ELSE <<>>],
    pend |-> [c \in Ctx |-> 0],     \* handle the context has to destroy next
    by   |-> [c \in Ctx |-> 0],     \* who is waiting for the destruction of c
    pin  |-> [c \in Ctx |-> 0],     \* thread c must stay on: it was suspended inside a destructor
    slot |-> [i \in 1..NS |-> 0],
    fp   |-> [c \in Ctx |-> 0],
    rel  |-> [c \in Ctx |-> "no"],  \* stack and callable released? no / may / must
    cur  |-> [t \in Threads |-> t],
    quit |-> 0,                     \* the process ends: i + 1, slots 1..i are still to be destroyed
    qt   |-> 0,                     \* ... on this thread
    term |-> 0 ]                    \* 1: std::terminate was called, 2: the process has ended

NoOp == [a |-> "init", t |-> 0, c |-> 0, l |-> 0, m |-> 0, ev |-> <<>>]

(*------------------------------- helpers --------------------------------*)
Depth(S, c) == Len(S.fr[c])
Top(S, c)   == S.fr[c][Len(S.fr[c])]
SetTop(S, c, f) == [S EXCEPT !.fr[c] = [@ EXCEPT ![Len(@)] = f]]
Push(S, c, f)   == [S EXCEPT !.fr[c] = Append(@, f)]
Drop(S, c)      == [S EXCEPT !.fr[c] = SubSeq(@, 1, Len(@) - 1)]

Dead(S, h)  == h # 0 /\ S.st[h] = "dead"
Valid(S, h) == h # 0 /\ S.st[h] # "dead"

Get(S, c, l) == IF l = 0 THEN Top(S, c).acc ELSE S.slot[l]
Put(S, c, l, h) == IF l = 0 THEN SetTop(S, c, [Top(S, c) EXCEPT !.acc = h])
                            ELSE [S EXCEPT !.slot[l] = h]
\* assignment of h to location l: what it held is destroyed afterwards
Assign(S, c, l, h) == [Put(S, c, l, h) EXCEPT !.pend[c] = Get(S, c, l)]
Arrived(S, c) == SetTop(S, c, [Top(S, c) EXCEPT !.rw = 0])
Deliver(S, c, h) == Assign(Arrived(S, c), c, 0, h)

\* thread t has ended
Off(S, t) == S.st[t] = "off"
Ready(S, t) == IF Off(S, t) THEN TRUE
               ELSE S.pend[S.cur[t]] = 0 /\ Top(S, S.cur[t]).sg = 0 /\ (S.quit # 0 => S.qt # t)

\* handles an unwinding of c destroys directly
HeldBy(S, c) == UNION {{f.acc, f.val} : f \in {S.fr[c][i] : i \in 1..Depth(S, c)}} \ {0}
RECURSIVE Closure(_, _)
Closure(S, X) ==
  LET Y == X \cup UNION {HeldBy(S, c) : c \in X} IN IF Y = X THEN X ELSE Closure(S, Y)
\* Destroying h is within the contract: it never reaches the initial context
\* of a thread or a context suspended inside a destructor.
SafeKill(S, h) ==
  Valid(S, h) =>
    \A c \in Closure(S, {h}) : ~IsMain(c) /\ \A i \in 1..Depth(S, c) : S.fr[c][i].k # "dtor"

\* index of the frame that handles an exception thrown in the top frame, 0 if none
Catcher(S, c) ==
  LET D == Depth(S, c)
      J == {i \in 1..D : S.fr[c][i].k = "try" /\ \A j \in (i+1)..D : S.fr[c][j].k # "dtor"}
  IN IF J = {} THEN 0 ELSE CHOOSE i \in J : \A j \in J : j <= i

\* Control arrives in y on thread t with handle h: <<state, events>>
SwitchTo(S, t, y, h) ==
  IF S.st[y] = "new"
  THEN << [S EXCEPT !.st[y] = "live", !.mode[y] = "run", !.cur[t] = y,
                    !.fr[y] = <<Frame("base", h)>>], << <<"Enter", y, 1, 0>> >> >>
  ELSE << Deliver([S EXCEPT !.mode[y] = "run", !.cur[t] = y], y, h), <<>> >>

\* ... and there a function is run on top first
SwitchOntop(S, t, y, h) ==
  << Push([S EXCEPT !.st[y] = "live", !.mode[y] = "run", !.cur[t] = y], y, Frame("ontop", h)),
     << <<"OnTop", y, Depth(S, y) + 1, 0>> >> >>

Leave(S, c, ex, val, eid) ==
  SetTop(S, c, [Top(S, c) EXCEPT !.sg = 1, !.ex = ex, !.val = val, !.eid = eid, !.rw = 0])

\* an exception reaches the top frame of c
ExcArrive(S, c, val, eid) ==
  IF Top(S, c).k = "try"
  THEN << IF val = 0 THEN Arrived(S, c) ELSE Deliver(S, c, val), << <<"Catch", c, Depth(S, c), eid>> >> >>
  ELSE << Leave(S, c, "exc", val, eid), <<>> >>

\* the unwinding of c reaches its top frame
UnwArrive(S, c) ==
  << Leave(S, c, "unw", 0, 0),
     IF Top(S, c).k = "try" THEN << <<"Unw", c, Depth(S, c), 0>> >> ELSE <<>> >>

(*---------------------------- internal steps -----------------------------*)

\* destruction of one handle object that is not needed any more
DestroyPending(S, t, c) ==
  LET h == S.pend[c]
      S1 == [S EXCEPT !.pend[c] = 0] IN
  CASE Dead(S, h)         -> << [S1 EXCEPT !.rel[h] = "must"], <<>> >>
    [] S.st[h] = "new"    -> << [S1 EXCEPT !.st[h] = "dead", !.rel[h] = "must"], <<>> >>
    [] OTHER              -> UnwArrive([S1 EXCEPT !.mode[c] = "wait", !.mode[h] = "run",
                                                  !.by[h] = c, !.cur[t] = h], h)

\* context x has left its last frame
Finish(S, t, x, f) ==
  LET S1 == [S EXCEPT !.st[x] = "dead", !.mode[x] = "idle", !.pin[x] = 0] IN
  IF f.ex = "unw"
  THEN << [S1 EXCEPT !.rel[x] = "must", !.by[x] = 0, !.cur[t] = S.by[x], !.mode[S.by[x]] = "run"],
          <<>> >>
  ELSE SwitchTo([S1 EXCEPT !.rel[x] = "may"], t, f.val, x)

RemoveFrame(S, t, c) ==
  LET f == Top(S, c)
      S1 == Drop(S, c)
      last == Depth(S, c) = 1 IN
  CASE f.ex = "exc" -> ExcArrive(S1, c, f.val, f.eid)
    [] f.ex = "unw" -> IF last THEN Finish(S1, t, c, f) ELSE UnwArrive(S1, c)
    [] f.ex = "pop" /\ f.k = "base"  ->
          IF IsMain(c) THEN << [S1 EXCEPT !.st[c] = "off", !.mode[c] = "idle", !.pin[c] = 0], <<>> >>
                       ELSE Finish(S1, t, c, f)
    [] f.ex = "pop" /\ f.k = "ontop" ->
          IF last THEN << Push(S1, c, Frame("base", f.val)), << <<"Enter", c, 1, 0>> >> >>
                  ELSE << Deliver(S1, c, f.val), <<>> >>
    [] OTHER -> << S1, <<>> >>

Step(S, t) ==
  LET c == S.cur[t]
      f == Top(S, c) IN
  CASE S.pend[c] # 0 -> DestroyPending(S, t, c)
    [] f.sg = 1 -> << [SetTop(S, c, [f EXCEPT !.acc = 0, !.sg = 2]) EXCEPT !.pend[c] = f.acc], <<>> >>
    [] f.sg = 2 -> << LET S1 == SetTop(S, c, [f EXCEPT !.sg = 3])
                      IN IF f.g = "a" THEN Push(S1, c, Frame("dtor", 0)) ELSE S1,
                      << <<"Dtor", c, Depth(S, c), 0>> >> >>
    [] f.sg = 3 -> RemoveFrame(S, t, c)
    [] OTHER    -> \* the process ends: objects with static storage duration, last one first
         IF S.quit = 1 THEN << [S EXCEPT !.quit = 0, !.qt = 0, !.term = 2], <<>> >>
         ELSE LET i == S.quit - 1 IN
              << [S EXCEPT !.quit = i, !.slot[i] = 0, !.pend[c] = S.slot[i]], <<>> >>

Internal ==
  \E t \in Threads :
    /\ ~Ready(s, t)
    /\ LET r == Step(s, t) IN
         /\ s' = r[1]
         /\ op' = [NoOp EXCEPT !.a = "int", !.t = t, !.c = s.cur[t], !.ev = r[2]]
    /\ n' = n

(*------------------------------- commands --------------------------------*)
\* Result r = <<state, events>> of command a by context c of thread t
Do(a, t, c, l, m, r) ==
  /\ s' = r[1]
  /\ op' = [a |-> a, t |-> t, c |-> c, l |-> l, m |-> m, ev |-> r[2]]
  /\ n' = n + 1

On(a) == a \in Cmds

\* c may suspend itself: what its handle variable still holds will be destroyed when it resumes
CanSuspend(S, c) == SafeKill(S, Top(S, c).acc)
\* A context that is suspended inside a destructor may be in the middle of an unwinding: it
\* (and with it whoever waits for its destruction) stays on its thread.
CanRun(S, t, h) == Valid(S, h) /\ (IsMain(h) => h = t) /\ S.pin[h] \in {0, t}
InDtor(S, c) == \E i \in 1..Depth(S, c) : S.fr[c][i].k = "dtor"
Suspend(S, t, c) == [S EXCEPT !.mode[c] = "sus", !.pin[c] = IF NT > 1 /\ InDtor(S, c) THEN t ELSE 0]

FreshIds(S) == {x \in Ctx : S.st[x] = "none"}
Fresh(S) == CHOOSE x \in FreshIds(S) : \A y \in FreshIds(S) : x <= y
Born(S, c, x, st) == [S EXCEPT !.st[x] = st, !.fp[x] = S.fp[c]]

\* l = F{ fn }
New(t, c, l) ==
  /\ On("New") /\ FreshIds(s) # {} /\ SafeKill(s, Get(s, c, l))
  /\ LET x == Fresh(s) IN Do("New", t, c, l, x, << Assign(Born(s, c, x, "new"), c, l, x), <<>> >>)

\* acc = callcc( fn)
CallCC(t, c) ==
  /\ On("CallCC") /\ FreshIds(s) # {} /\ CanSuspend(s, c)
  /\ LET x == Fresh(s) IN
       Do("CallCC", t, c, 0, x, SwitchTo(Suspend(Born(s, c, x, "new"), t, c), t, x, c))

\* creation fails: nothing changes, the exception is handled on the spot
NewFail(t, c, l) ==
  /\ On("NewFail") /\ FreshIds(s) # {}
  /\ Do("NewFail", t, c, l, 0, << s, <<>> >>)

\* acc = std::move( l).resume()
Resume(t, c, l) ==
  /\ On("Resume")
  /\ LET h == Get(s, c, l)
         S1 == Suspend(Put(s, c, l, 0), t, c) IN
     /\ CanRun(s, t, h) /\ CanSuspend(S1, c)
     /\ Do("Resume", t, c, l, h, SwitchTo(S1, t, h, c))

\* acc = std::move( l).resume_with( fn)
ResumeWith(t, c, l) ==
  /\ On("ResumeWith")
  /\ LET h == Get(s, c, l)
         S1 == Suspend(Put(s, c, l, 0), t, c) IN
     /\ CanRun(s, t, h) /\ CanSuspend(S1, c) /\ Depth(s, h) < MaxDepth
     /\ Do("ResumeWith", t, c, l, h, SwitchOntop(SetTop(S1, c, [Top(S1, c) EXCEPT !.rw = h]), t, h, c))

\* ... with a function that cannot be copied: the exception reaches the caller, nothing changes
ResumeFail(t, c, l) ==
  /\ On("ResumeFail")
  /\ LET h == Get(s, c, l) IN
     CanRun(s, t, h) /\ Do("ResumeFail", t, c, l, h, << s, <<>> >>)

\* return std::move( acc) from a context function or a function on top
Return(t, c) ==
  LET f == Top(s, c) IN
  /\ \/ On("Return") /\ f.k = "base" /\ ~IsMain(c) /\ CanRun(s, t, f.acc)
     \/ On("OntopReturn") /\ f.k = "ontop"
  /\ Do("Return", t, c, 0, f.acc,
        << Leave(SetTop(s, c, [f EXCEPT !.acc = 0]), c, "pop", f.acc, 0), <<>> >>)

Call(t, c, k) ==
  /\ On("Call") /\ k \in {"call", "try"} /\ (k = "try" => On("Try")) /\ Depth(s, c) < MaxDepth
  /\ Do(IF k = "try" THEN "Try" ELSE "Call", t, c, 0, 0, << Push(s, c, Frame(k, 0)), <<>> >>)

\* leave a called function or an active destructor
Pop(t, c) ==
  LET f == Top(s, c) IN
  /\ ~On("Call") => f.k = "dtor"
  /\ f.k \in {"call", "try", "dtor"} /\ SafeKill(s, f.acc)
  /\ Do("Pop", t, c, 0, 0, << Leave(s, c, "pop", 0, 0), <<>> >>)

\* make the destructor of the running frame's guard object active
Arm(t, c) ==
  /\ On("Arm") /\ Top(s, c).g = "p" /\ Top(s, c).k # "dtor"
  \* (at the end of a thread: objects with thread storage duration)
  /\ ~(IsMain(c) /\ Depth(s, c) = 1 /\ ~(On("Exit") /\ c # 1))
  /\ Do("Arm", t, c, 0, 0, << SetTop(s, c, [Top(s, c) EXCEPT !.g = "a"]), <<>> >>)

\* throw E{ id, w = 1 ? std::move( acc) : empty }
Throw(t, c, w) ==
  /\ On("Throw")
  /\ LET f  == Top(s, c)
         h  == IF w = 1 THEN f.acc ELSE 0
         S1 == SetTop(s, c, [f EXCEPT !.acc = IF w = 1 THEN 0 ELSE @])
         j  == Catcher(s, c) IN
     /\ w = 1 => Valid(s, f.acc)
     /\ IF j = 0
        THEN /\ On("Uncaught")
             /\ Do("Throw", t, c, 0, w, << [S1 EXCEPT !.term = 1], << <<"Terminate", c, 0, 0>> >> >>)
        ELSE /\ \A i \in (j+1)..Depth(s, c) : SafeKill(S1, S1.fr[c][i].acc)
             /\ w = 1 => SafeKill(S1, S1.fr[c][j].acc)
             /\ Do("Throw", t, c, 0, w, ExcArrive(S1, c, h, 10 * c + Depth(s, c)))

\* l goes out of scope / is reset
Destroy(t, c, l) ==
  /\ On("Destroy") /\ Valid(s, Get(s, c, l)) /\ SafeKill(s, Get(s, c, l))
  /\ Do("Destroy", t, c, l, Get(s, c, l), << Assign(s, c, l, 0), <<>> >>)

\* m = std::move( l)
Move(t, c, l, m) ==
  /\ On("Move") /\ (Get(s, c, l) # 0 \/ Dead(s, Get(s, c, m)))
  /\ l # m => SafeKill(s, Get(s, c, m))
  /\ Do("Move", t, c, l, m,
        IF l = m THEN << s, <<>> >>
                 ELSE << Assign(Put(s, c, l, 0), c, m, Get(s, c, l)), <<>> >>)

Swap(t, c, l, m) ==
  /\ On("Swap") /\ l <= m /\ (Get(s, c, l) # 0 \/ Get(s, c, m) # 0)
  /\ Do("Swap", t, c, l, m, << Put(Put(s, c, l, Get(s, c, m)), c, m, Get(s, c, l)), <<>> >>)

\* change the floating-point control environment
SetFP(t, c, v) ==
  /\ On("SetFP") /\ v # s.fp[c]
  /\ Do("SetFP", t, c, 0, v, << [s EXCEPT !.fp[c] = v], <<>> >>)

\* the thread ends; handles that point to contexts it created or ran stay good
Exit(t, c) ==
  /\ On("Exit") /\ t # 1 /\ c = t /\ Depth(s, c) = 1 /\ SafeKill(s, Top(s, c).acc)
  /\ Do("Exit", t, c, 0, 0, << Leave(s, c, "pop", 0, 0), <<>> >>)

\* and one is started in its place
Start(t, c, u) ==
  /\ On("Start") /\ Off(s, u)
  /\ Do("Start", t, c, 0, u, << [s EXCEPT !.st[u] = "live", !.mode[u] = "run", !.fp[u] = 0,
                                          !.fr[u] = <<Frame("base", 0)>>], <<>> >>)

\* exit() is called: the handles with static storage duration are destroyed
Quit(t, c) ==
  /\ On("Quit")
  /\ LET X == Closure(s, {s.slot[i] : i \in 1..NS} \ {0}) IN
       /\ \A i \in 1..NS : SafeKill(s, s.slot[i])
       /\ \A x \in X : \A i \in 1..Depth(s, x) : s.fr[x][i].g = "p"
  /\ Do("Quit", t, c, 0, 0, << [s EXCEPT !.quit = NS + 1, !.qt = t], <<>> >>)

Command ==
  /\ s.term = 0
  /\ \A t \in Threads : Ready(s, t)
  /\ n < MaxCmds
  /\ \E t \in {u \in Threads : ~Off(s, u)} : LET c == s.cur[t] IN
       \/ \E l \in Locs : \/ New(t, c, l) \/ NewFail(t, c, l) \/ Resume(t, c, l)
                          \/ ResumeWith(t, c, l) \/ ResumeFail(t, c, l) \/ Destroy(t, c, l)
                          \/ \E m \in Locs : Move(t, c, l, m) \/ Swap(t, c, l, m)
       \/ CallCC(t, c) \/ Return(t, c) \/ Pop(t, c) \/ Arm(t, c)
       \/ \E k \in {"call", "try"} : Call(t, c, k)
       \/ \E w \in {0, 1} : Throw(t, c, w)
       \/ \E v \in 0..(NFP-1) : SetFP(t, c, v)
       \/ Quit(t, c) \/ Exit(t, c) \/ \E u \in Threads : Start(t, c, u)

Init == s = Init0 /\ op = NoOp /\ n = 0
Next == Internal \/ Command
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -------------------------------*)
Holders(h) ==   \* number of handle objects designating h
  LET inFrames == {<<c, i, w>> \in Ctx \X (1..(MaxDepth + 6)) \X {1, 2} :
                     i <= Depth(s, c) /\ (IF w = 1 THEN s.fr[c][i].acc ELSE s.fr[c][i].val) = h}
      inSlots == {i \in 1..NS : s.slot[i] = h}
      inPend  == {c \in Ctx : s.pend[c] = h}
  IN Cardinality(inFrames) + Cardinality(inSlots) + Cardinality(inPend)

\* C02: one valid handle for each context that is not running, none for the others
HandlesLinear ==
  \A c \in Ctx :
    LET k == Holders(c) IN
    CASE s.term # 0 -> TRUE
      [] s.st[c] = "none" -> k = 0
      [] s.st[c] = "new"  -> k = 1
      [] s.st[c] = "dead" -> k <= 1 /\ (k = 1 <=> s.rel[c] = "may")
      [] s.mode[c] = "sus" -> k = 1
      [] OTHER -> k = 0

\* C01, C18: one running context per thread, and it is the one the thread thinks
OneRunning ==
  /\ \A t \in Threads : IF Off(s, t) THEN s.cur[t] = t
                         ELSE s.st[s.cur[t]] = "live" /\ s.mode[s.cur[t]] = "run"
  /\ \A t, u \in Threads : t # u => s.cur[t] # s.cur[u]
  /\ Cardinality({c \in Ctx : s.mode[c] = "run"}) = Cardinality({t \in Threads : ~Off(s, t)})
  /\ \A t, u \in Threads : IsMain(s.cur[t]) => s.cur[t] = t

\* C07, C08, C09: what exists on a stack
StackShape ==
  \A c \in Ctx :
    /\ s.st[c] \in {"none", "new", "dead", "off"} <=> s.fr[c] = <<>>
    /\ s.st[c] = "live" => /\ s.fr[c][1].k \in {"base", "ontop"}
                           /\ \A i \in 2..Depth(s, c) : s.fr[c][i].k # "base"
                           \* every frame below a destructor is being left
                           /\ \A i \in 1..Depth(s, c) :
                                s.fr[c][i].k = "dtor" => s.fr[c][i-1].sg = 3
                           /\ \A i \in 1..(Depth(s, c) - 1) :
                                s.fr[c][i].sg # 0 => s.fr[c][i+1].k = "dtor"
    /\ s.mode[c] \in {"run", "sus", "wait"} <=> s.st[c] = "live"
    /\ (s.mode[c] = "wait") <=> \E x \in Ctx : s.by[x] = c
    /\ s.by[c] # 0 => s.st[c] = "live"
    /\ s.pin[c] # 0 => s.st[c] = "live" /\ (s.mode[c] = "run" => s.cur[s.pin[c]] = c)

\* C10: a stack is never released while its context can run
ReleaseOrder ==
  \A c \in Ctx : s.rel[c] # "no" <=> s.st[c] = "dead"

\* C26: at the end of the process nothing a static handle kept alive is left
QuitCleans ==
  s.term = 2 => \A i \in 1..NS : s.slot[i] = 0

\* at most one thread at a time is between two commands
Atomic == Cardinality({t \in Threads : ~Ready(s, t)}) <= 1

\* C17, C25: what fails changes nothing
FailAtomic ==
  [][ op'.a \in {"NewFail", "ResumeFail"} => s' = s ]_vars

\* nothing comes back from the dead, releases are final
Rank(r) == CASE r = "no" -> 0 [] r = "may" -> 1 [] r = "must" -> 2
Irreversible ==
  [][ \A c \in Ctx : /\ s.st[c] = "dead" => s'.st[c] = "dead"
                     /\ s.st[c] = "live" => s'.st[c] # "new" /\ s'.st[c] # "none"
                     /\ s.st[c] = "off" => s'.st[c] = "off" \/ op'.a = "Start"
                     /\ Rank(s.rel[c]) <= Rank(s'.rel[c]) ]_vars

\* C01, C03: a step changes only the stack of the context that runs before or after it
Frozen ==
  [][ \A c \in Ctx :
        (/\ \A t \in Threads : s.cur[t] # c /\ s'.cur[t] # c
         /\ s.st[c] = "live")
        => (s'.fr[c] = s.fr[c] /\ s'.st[c] = "live") ]_vars

\* C04: the environment of a context changes only while it runs, by its own command
FpLocal ==
  [][ \A c \in Ctx : s'.fp[c] # s.fp[c] =>
        \/ s.st[c] \in {"none", "off"}
        \/ op'.a = "SetFP" /\ op'.c = c ]_vars

\* C05: a function on top is entered with the resumer's handle, before anything else of the target
OntopFirst ==
  [][ op'.a = "ResumeWith" =>
        LET y == op'.m IN /\ Top(s', y).k = "ontop" /\ Top(s', y).acc = op'.c
                          /\ SubSeq(s'.fr[y], 1, Depth(s', y) - 1) = s.fr[y] ]_vars

\* C07: the destroyer continues only after the context it destroys is gone, and nobody else can continue it
DestroyerWaits ==
  [][ \A c \in Ctx : (s.mode[c] = "wait" /\ s'.mode[c] = "run") =>
        \E x \in Ctx : s.by[x] = c /\ s'.st[x] = "dead" ]_vars

\* C07: objects are destroyed once, innermost first: a frame goes only after its guard went
DtorLifo ==
  [][ \A c \in Ctx : Len(s'.fr[c]) < Len(s.fr[c]) =>
        Len(s'.fr[c]) + 1 = Len(s.fr[c]) /\ Top(s, c).sg = 3 ]_vars

(*---------------------------- generation ---------------------------------*)
\* What can be observed in the real program when every thread is ready for a command
Bit(b) == IF b THEN 1 ELSE 0
Releases(S) == [c \in Ctx |-> CASE S.rel[c] = "no" -> 0 [] S.rel[c] = "may" -> 1 [] S.rel[c] = "must" -> 2]
Obs(S) ==
  << [t \in Threads |-> S.cur[t]],
     [t \in Threads |-> Depth(S, S.cur[t])],
     [t \in Threads |-> IF Off(S, t) THEN 0 ELSE Bit(Valid(S, Top(S, S.cur[t]).acc))],
     [i \in 1..NS |-> Bit(Valid(S, S.slot[i]))],
     [t \in Threads |-> S.fp[S.cur[t]]],
     Releases(S),
     \* may functions that were to run on top of c still exist?
     [c \in Ctx |-> Bit(\/ \E i \in 1..Depth(S, c) : S.fr[c][i].k = "ontop"
                        \/ \E x \in Ctx : \E i \in 1..Depth(S, x) : S.fr[x][i].rw = c)] >>

Quiet(S) == \A t \in Threads : Ready(S, t)
Label == << op'.a, op'.t, op'.c, op'.l, op'.m, op'.ev,
            IF s'.term = 1 THEN <<1>> ELSE IF s'.term = 2 THEN <<2, Releases(s')>> ELSE IF Quiet(s') THEN Obs(s') ELSE <<0>> >>

View == s
\* ACTION_CONSTRAINT that writes every edge of the state graph
Edge == PrintT(<<"E", ToString(s), ToString(s'), ToJson(Label)>>)

\* ditto for random behaviours: hist is written when a behaviour ends (see ContextSim)
=============================================================================
