-------------------------------- MODULE Fctx --------------------------------
(***************************************************************************)
(* The low-level interface: make_fcontext, jump_fcontext, ontop_fcontext.  *)
(*                                                                         *)
(* Context 1 is the initial one.  A context is "none", "fresh" (made, not  *)
(* entered), "susp" (inside a jump) or "run".  fr is the stack of what it  *)
(* executes: "fn" (its function), "call" (a function called from the frame *)
(* below), "ontop" (a function run on top of its suspended jump).  env is  *)
(* its environment: floating-point control words and, if the library is    *)
(* built for it, the stack guard.  With TSX the library leaves the         *)
(* floating-point environment alone: it is then one of the thread.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NC, ND, NE, MaxDepth, MaxCmds, TSX, Cmds
VARIABLES s, op, n
vars == <<s, op, n>>

Ctx == 1..NC
Data == 0..(ND - 1)
Env == 0..(NE - 1)
Null == 0

None == <<0, 0, 0>>
\* what the program sees after a step: running context, frames, environment, and what was delivered
Obs(S, ev) == <<S.cur, Len(S.fr[S.cur]), S.env[S.cur]>> \o ev

Init == /\ s = [ st  |-> [c \in Ctx |-> IF c = 1 THEN "run" ELSE "none"],
                 fr  |-> [c \in Ctx |-> IF c = 1 THEN <<"fn">> ELSE <<>>],
                 env |-> [c \in Ctx |-> 0],
                 cur |-> 1,
                 end |-> FALSE ]
        /\ op = <<"init">> /\ n = 0

Top(S, c) == S.fr[c][Len(S.fr[c])]
Step(a, x, h, d, S, ev) ==
  /\ s' = S /\ n' = n + 1 /\ op' = <<a, x, h, d>> \o Obs(S, ev)

\* x: any context but the running one; a suspended one is abandoned, its stack used anew
Make(x) ==
  /\ x # s.cur /\ x # 1
  /\ Step("Make", x, 0, 0, [s EXCEPT !.st[x] = "fresh", !.fr[x] = <<>>, !.env[x] = s.env[s.cur]], None)

Switch(S, x) == [S EXCEPT !.st[S.cur] = "susp", !.st[x] = "run", !.cur = x,
                          !.env[x] = IF TSX THEN S.env[S.cur] ELSE @]
Jump(x, d) ==
  LET c == s.cur
      T == Switch(s, x) IN
  /\ s.st[x] \in {"fresh", "susp"}
  /\ IF s.st[x] = "fresh"
     THEN Step("Jump", x, 0, d, [T EXCEPT !.fr[x] = <<"fn">>], <<1, c, d>>)
     ELSE Step("Jump", x, 0, d, T, <<2, c, d>>)

\* only a suspended jump can take a function on top
Ontop(x, d) ==
  /\ s.st[x] = "susp" /\ Len(s.fr[x]) < MaxDepth
  /\ Step("Ontop", x, 0, d, [Switch(s, x) EXCEPT !.fr[x] = Append(@, "ontop")], <<3, s.cur, d>>)

\* it returns a handle of its choice
OntopReturn(h, d) ==
  /\ Top(s, s.cur) = "ontop"
  /\ IF h = Null THEN TRUE ELSE s.st[h] = "susp"
  /\ Step("OntopReturn", 0, h, d, [s EXCEPT !.fr[s.cur] = SubSeq(@, 1, Len(@) - 1)], <<2, h, d>>)

Call ==
  /\ Len(s.fr[s.cur]) < MaxDepth
  /\ Step("Call", 0, 0, 0, [s EXCEPT !.fr[s.cur] = Append(@, "call")], None)
Pop ==
  /\ Top(s, s.cur) = "call"
  /\ Step("Pop", 0, 0, 0, [s EXCEPT !.fr[s.cur] = SubSeq(@, 1, Len(@) - 1)], None)
SetEnv(e) ==
  /\ e # s.env[s.cur]
  /\ Step("SetEnv", 0, 0, e, [s EXCEPT !.env[s.cur] = e], None)
\* a context function must not return: the process ends
Finish ==
  /\ s.cur # 1 /\ Top(s, s.cur) = "fn"
  /\ Step("Finish", 0, 0, 0, [s EXCEPT !.end = TRUE], <<4, 0, 0>>)

Do(a) ==
  /\ n < MaxCmds /\ ~s.end
  /\ CASE a = "Make" -> \E x \in Ctx : Make(x)
       [] a = "Jump" -> \E x \in Ctx, d \in Data : Jump(x, d)
       [] a = "Ontop" -> \E x \in Ctx, d \in Data : Ontop(x, d)
       [] a = "OntopReturn" -> \E h \in 0..NC, d \in Data : OntopReturn(h, d)
       [] a = "Call" -> Call
       [] a = "Pop" -> Pop
       [] a = "SetEnv" -> \E e \in Env : SetEnv(e)
       [] a = "Finish" -> Finish
Next == \E a \in Cmds : Do(a)
Spec == Init /\ [][Next]_vars

(*----------------------------- properties --------------------------------*)
OneRunning == /\ s.st[s.cur] = "run" /\ {c \in Ctx : s.st[c] = "run"} = {s.cur}
StackShape == \A c \in Ctx :
  /\ s.st[c] \in {"none", "fresh"} <=> s.fr[c] = <<>>
  /\ s.fr[c] # <<>> => s.fr[c][1] = "fn" /\ \A i \in 2..Len(s.fr[c]) : s.fr[c][i] # "fn"
\* a suspended context stays as it is until control goes there or it is made anew
Frozen == [][ \A c \in Ctx : (s.cur # c /\ s'.cur # c /\ ~(op'[1] = "Make" /\ op'[2] = c))
                  => s'.fr[c] = s.fr[c] /\ s'.st[c] = s.st[c] /\ s'.env[c] = s.env[c] ]_vars
\* a transfer arrives at its target with the jumper's handle and the jumper's data
Delivered == [][ op'[1] \in {"Jump", "Ontop"} =>
                  /\ op'[5] = op'[2] /\ op'[9] = s.cur /\ op'[10] = op'[4]
                  /\ op'[8] = (IF op'[1] = "Ontop" THEN 3 ELSE IF s.st[op'[2]] = "fresh" THEN 1 ELSE 2) ]_vars
\* the environment changes only by the context's own command, or it is a new context
EnvLocal == [][ ~TSX => \A c \in Ctx : s'.env[c] # s.env[c] =>
                  (op'[1] = "SetEnv" /\ c = s.cur) \/ (op'[1] = "Make" /\ op'[2] = c) ]_vars
View == s
=============================================================================
