----------------------------- MODULE StackTraits -----------------------------
(***************************************************************************)
(* What stack_traits tells, in a process whose hard and soft stack limits  *)
(* change.  Limits are indices: 0 unlimited, larger index: lower limit.    *)
(* The answers are those of the hard limit at the first question about it, *)
(* for ever.  On Windows (Limitless) the answer is always: unlimited.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NL, NT, MaxCmds, Cmds, Limitless
VARIABLES s, op, n
vars == <<s, op, n>>
None == -1

Init == /\ s = [ hard |-> 0, soft |-> 0, cap |-> None, asked |-> FALSE, end |-> FALSE ]
        /\ op = <<"init">> /\ n = 0
Step(a, t, x, y, S) == s' = S /\ n' = n + 1 /\ op' = <<a, t, x, y>>

\* (not between the first question of another kind and the first about the limit: how early the
\* library looks at the limit is its own business)
SetLimit(h, l) ==
  /\ s.cap # None \/ ~s.asked
  /\ h >= s.hard /\ l >= h
  /\ Step("SetLimit", 0, h, l, [s EXCEPT !.hard = h, !.soft = l])
Cap == IF Limitless THEN 0 ELSE IF s.cap = None THEN s.hard ELSE s.cap
Ask(S) == [S EXCEPT !.cap = Cap, !.asked = TRUE]
IsUnbounded(t) == Step("IsUnbounded", t, Cap, 0, Ask(s))
Maximum(t) == Cap # 0 /\ Step("Maximum", t, Cap, 0, Ask(s))     \* must not be asked if unbounded
\* all threads ask at once
Race == Step("Race", 0, Cap, 0, Ask(s))
Page(t) == Step("Page", t, 0, 0, [s EXCEPT !.asked = TRUE])
Default(t) == Step("Default", t, 0, 0, [s EXCEPT !.asked = TRUE])
Minimum(t) == Step("Minimum", t, 0, 0, [s EXCEPT !.asked = TRUE])
\* a context with a stack of minimum or default size runs
UseMin(t) == Step("UseMin", t, 0, 0, [s EXCEPT !.asked = TRUE])
UseDefault(t) == Step("UseDefault", t, 0, 0, [s EXCEPT !.asked = TRUE])

T == 1..NT
Do(a) == /\ n < MaxCmds
         /\ CASE a = "SetLimit" -> \E h, l \in 0..(NL-1) : SetLimit(h, l)
              [] a = "IsUnbounded" -> \E t \in T : IsUnbounded(t)
              [] a = "Maximum" -> \E t \in T : Maximum(t)
              [] a = "Race" -> Race
              [] a = "Page" -> \E t \in T : Page(t)
              [] a = "Default" -> \E t \in T : Default(t)
              [] a = "Minimum" -> \E t \in T : Minimum(t)
              [] a = "UseMin" -> \E t \in T : UseMin(t)
              [] a = "UseDefault" -> \E t \in T : UseDefault(t)
Next == \E a \in Cmds : Do(a)
Spec == Init /\ [][Next]_vars

Sane == s.soft >= s.hard /\ (s.cap # None => s.asked) /\ (Limitless => s.cap \in {None, 0})
Constant == [][ s.cap # None => s'.cap = s.cap ]_vars
Answers == [][ op'[1] \in {"IsUnbounded", "Maximum", "Race"} => op'[3] = s'.cap ]_vars
View == s
=============================================================================
