----------------------------- MODULE ContextSim -----------------------------
(* Random long behaviours of Context.  Each step draws one command from the  *)
(* weighted sequence Weights with random operands and executes it if it is   *)
(* enabled.  The labels of a behaviour are collected in hist and written     *)
(* when it has used up its commands (tlc -simulate).                         *)
EXTENDS Context
CONSTANT Weights            \* sequence of command names, repeated by weight
VARIABLE hist

WSet == 1..Len(Weights)
\* (n >= 0 makes the expression depend on the state, so that TLC evaluates it every time)
Pick(X) == RandomElement(IF n >= 0 THEN X ELSE {})
Draw == [ a |-> Pick(WSet), t |-> Pick(Threads), l |-> Pick(Locs), m |-> Pick(Locs),
          v |-> Pick(0..(NFP-1)) ]

Run(t, c, a, l, m, v) ==
  CASE a = "New"         -> New(t, c, l)
    [] a = "NewFail"     -> NewFail(t, c, l)
    [] a = "CallCC"      -> CallCC(t, c)
    [] a = "Resume"      -> Resume(t, c, l)
    [] a = "ResumeWith"  -> ResumeWith(t, c, l)
    [] a = "Return"      -> Return(t, c)
    [] a = "Call"        -> Call(t, c, "call")
    [] a = "Try"         -> Call(t, c, "try")
    [] a = "Pop"         -> Pop(t, c)
    [] a = "Arm"         -> Arm(t, c)
    [] a = "Throw"       -> Throw(t, c, IF l = 0 THEN 0 ELSE 1)
    [] a = "Destroy"     -> Destroy(t, c, l)
    [] a = "Move"        -> Move(t, c, l, m)
    [] a = "Swap"        -> Swap(t, c, l, m)
    [] a = "SetFP"       -> SetFP(t, c, v)
    [] a = "ResumeFail"  -> ResumeFail(t, c, l)
    [] a = "Quit"        -> Quit(t, c)
    [] a = "Exit"        -> Exit(t, c)
    [] a = "Start"       -> \E u \in Threads : Start(t, c, u)

SimInit == Init /\ hist = <<>>
SimCommand ==
  /\ s.term = 0
  /\ \A t \in Threads : Ready(s, t)
  /\ n < MaxCmds
  /\ \E d \in {Draw} : ~Off(s, d.t) /\ Run(d.t, s.cur[d.t], Weights[d.a], d.l, d.m, d.v)
  /\ hist' = Append(hist, Label)
SimRetry ==
  /\ s.term = 0
  /\ \A t \in Threads : Ready(s, t)
  /\ n < MaxCmds
  /\ UNCHANGED <<vars, hist>>
SimNext == \/ Internal /\ hist' = Append(hist, Label)
           \/ SimCommand
           \/ SimRetry
SimSpec == SimInit /\ [][SimNext]_<<vars, hist>>
Emit == ((n = MaxCmds /\ Quiet(s)) \/ s.term # 0) => PrintT(<<"B", ToJson(hist)>>)
=============================================================================
