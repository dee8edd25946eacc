----------------------------- MODULE StackAlloc -----------------------------
(***************************************************************************)
(* Stack allocators, the stacks they hand out and the contexts that use    *)
(* them.                                                                   *)
(*                                                                         *)
(* al[a]: what allocator object a is: 0 no object, Moved a moved-from one, *)
(* or its group g.  A group is an allocator and all its copies; for a      *)
(* pooled allocator (Pool = TRUE) it is the pool, kept by a reference      *)
(* count.  sz[g]: index of the requested size (0: one nobody can provide). *)
(* rg[r]: stack r: "none", "raw" (held by the program), "new" (of a        *)
(* context not entered yet), "ctx" (of a suspended context); rgrp[r]: its  *)
(* group.  A context keeps an allocator object of its own.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NA, NR, NG, NSZ, Pool, MaxCmds, Cmds
VARIABLES s, op, n
vars == <<s, op, n>>

Al == 1..NA
Rg == 1..NR
Gr == 1..NG
Moved == -1
CtxSize == 1        \* sizes with this index are enough for a context
Huge == IF Pool THEN 1 ELSE 0   \* lowest size index (Boost.Pool does not take absurd sizes)

Init == /\ s = [ al   |-> [a \in Al |-> 0],
                 ref  |-> [g \in Gr |-> 0],      \* references counted
                 sz   |-> [g \in Gr |-> 0],
                 rg   |-> [r \in Rg |-> "none"],
                 rgrp |-> [r \in Rg |-> 0],
                 end  |-> FALSE ]
        /\ op = <<"init">> /\ n = 0

\* system memory is held for g: by its pool, or by its stacks
Holds(S, g) == IF Pool THEN S.ref[g] > 0 ELSE \E r \in Rg : S.rg[r] # "none" /\ S.rgrp[r] = g
Code(k) == CASE k = "none" -> 0 [] k = "raw" -> 1 [] k = "new" -> 2 [] k = "ctx" -> 3
Ok == 1
Fails == 2      \* std::bad_alloc
Either == 3     \* one or the other; if it succeeds the program gives the stack back at once
Step(a, x, y, z, res, S) ==
  /\ s' = S /\ n' = n + 1
  /\ op' = <<a, x, y, z, res, [g \in Gr |-> IF Holds(S, g) THEN 1 ELSE 0], [r \in Rg |-> Code(S.rg[r])],
             [r \in Rg |-> S.rgrp[r]], [g \in Gr |-> S.sz[g]] >>

\* dropping a reference; with the last one goes the pool and all it handed out
Unref(S, g) ==
  LET T == [S EXCEPT !.ref[g] = @ - 1] IN
  IF Pool /\ T.ref[g] = 0
  THEN [T EXCEPT !.rg = [r \in Rg |-> IF T.rgrp[r] = g THEN "none" ELSE T.rg[r]],
                 !.rgrp = [r \in Rg |-> IF T.rgrp[r] = g THEN 0 ELSE T.rgrp[r]]]
  ELSE T
Ref(S, g) == [S EXCEPT !.ref[g] = @ + 1]
Unset(S, a) == IF S.al[a] > 0 THEN [Unref(S, S.al[a]) EXCEPT !.al[a] = 0] ELSE [S EXCEPT !.al[a] = 0]
\* a group nobody refers to any more can be named anew
Free1(S) == {g \in Gr : S.ref[g] = 0 /\ \A r \in Rg : S.rgrp[r] # g}
Fresh(S) == CHOOSE g \in Free1(S) : \A h \in Free1(S) : g <= h

MakeAlloc(a, z) ==
  /\ s.al[a] = 0 /\ Free1(s) # {}
  /\ LET g == Fresh(s) IN
     Step("MakeAlloc", a, g, z, Ok, Ref([s EXCEPT !.al[a] = g, !.sz[g] = z], g))
CopyAlloc(a, b) ==      \* b := copy of a
  /\ a # b /\ s.al[a] > 0
  /\ Step("CopyAlloc", a, b, IF s.al[b] = 0 THEN 0 ELSE 1, Ok,
          LET S == Unset(Ref(s, s.al[a]), b) IN [S EXCEPT !.al[b] = s.al[a]])
MoveAlloc(a, b) ==      \* b := std::move(a)
  /\ a # b /\ s.al[a] > 0
  /\ Step("MoveAlloc", a, b, IF s.al[b] = 0 THEN 0 ELSE 1, Ok,
          LET g == s.al[a]
              S == Unset(Ref(s, g), b)
              T == [S EXCEPT !.al[b] = g] IN
          IF Pool THEN [Unref(T, g) EXCEPT !.al[a] = Moved] ELSE T)
DropAlloc(a) ==
  /\ s.al[a] # 0
  /\ Step("DropAlloc", a, 0, 0, Ok, Unset(s, a))

Alloc(a, r) ==
  /\ s.al[a] > 0 /\ s.rg[r] = "none"
  /\ IF s.sz[s.al[a]] = 0
     THEN Step("Alloc", a, r, 0, Fails, s)
     ELSE Step("Alloc", a, r, 0, Ok, [s EXCEPT !.rg[r] = "raw", !.rgrp[r] = s.al[a]])
\* m: what fails underneath (1 memory calls, 2 page protection, 3 memory calls after the first, 4 the second memory call only)
AllocFail(a, m) ==
  /\ s.al[a] > 0
  /\ Step("AllocFail", a, 0, m, IF s.sz[s.al[a]] = 0 THEN Fails ELSE Either, s)
Free(a, r) ==
  /\ s.rg[r] = "raw" /\ s.al[a] = s.rgrp[r]
  /\ Step("Free", a, r, 0, Ok, [s EXCEPT !.rg[r] = "none", !.rgrp[r] = 0])

NewCtx(a, r) ==
  /\ s.al[a] > 0 /\ s.rg[r] = "none" /\ s.sz[s.al[a]] = CtxSize
  /\ Step("NewCtx", a, r, 0, Ok, Ref([s EXCEPT !.rg[r] = "ctx", !.rgrp[r] = s.al[a]], s.al[a]))
NewCtx0(a, r) ==
  /\ s.al[a] > 0 /\ s.rg[r] = "none" /\ s.sz[s.al[a]] = CtxSize
  /\ Step("NewCtx0", a, r, 0, Ok, Ref([s EXCEPT !.rg[r] = "new", !.rgrp[r] = s.al[a]], s.al[a]))
NewCtxFail(a, m) ==
  /\ s.al[a] > 0 /\ s.sz[s.al[a]] \in {0, CtxSize}
  /\ Step("NewCtxFail", a, 0, m, IF s.sz[s.al[a]] = 0 THEN Fails ELSE Either, s)
Gone(r) == Unref([s EXCEPT !.rg[r] = "none", !.rgrp[r] = 0], s.rgrp[r])
Start(r) ==
  /\ s.rg[r] = "new"
  /\ Step("Start", 0, r, 0, Ok, [s EXCEPT !.rg[r] = "ctx"])
EndCtx(r) ==
  /\ s.rg[r] \in {"new", "ctx"}
  /\ Step("EndCtx", 0, r, 0, Ok, Gone(r))
DestroyCtx(r) ==
  /\ s.rg[r] \in {"new", "ctx"}
  /\ Step("DestroyCtx", 0, r, 0, Ok, Gone(r))

Do(a) ==
  /\ n < MaxCmds
  /\ CASE a = "MakeAlloc" -> \E x \in Al, z \in Huge..NSZ : MakeAlloc(x, z)
       [] a = "CopyAlloc" -> \E x, y \in Al : CopyAlloc(x, y)
       [] a = "MoveAlloc" -> \E x, y \in Al : MoveAlloc(x, y)
       [] a = "DropAlloc" -> \E x \in Al : DropAlloc(x)
       [] a = "Alloc" -> \E x \in Al, r \in Rg : Alloc(x, r)
       [] a = "AllocFail" -> \E x \in Al, m \in 1..4 : AllocFail(x, m)
       [] a = "Free" -> \E x \in Al, r \in Rg : Free(x, r)
       [] a = "NewCtx" -> \E x \in Al, r \in Rg : NewCtx(x, r)
       [] a = "NewCtx0" -> \E x \in Al, r \in Rg : NewCtx0(x, r)
       [] a = "NewCtxFail" -> \E x \in Al, m \in 1..2 : NewCtxFail(x, m)
       [] a = "Start" -> \E r \in Rg : Start(r)
       [] a = "EndCtx" -> \E r \in Rg : EndCtx(r)
       [] a = "DestroyCtx" -> \E r \in Rg : DestroyCtx(r)
Next == \E a \in Cmds : Do(a)
Spec == Init /\ [][Next]_vars

(*----------------------------- properties --------------------------------*)
\* the count is the number of allocator objects and contexts that refer to the group
RefsExact == \A g \in Gr : s.ref[g] = Cardinality({a \in Al : s.al[a] = g})
                                      + Cardinality({r \in Rg : s.rg[r] \in {"new", "ctx"} /\ s.rgrp[r] = g})
\* C16: whoever has a stack of a pool has a pool that holds memory
PoolOutlivesStacks == Pool => \A r \in Rg : s.rg[r] # "none" => s.ref[s.rgrp[r]] > 0
\* C16: and nothing is held when nobody refers to it
NoLeak == \A g \in Gr : Holds(s, g) => s.ref[g] > 0 \/ (~Pool /\ \E r \in Rg : s.rg[r] # "none" /\ s.rgrp[r] = g)
Shape == \A r \in Rg : (s.rg[r] = "none") <=> (s.rgrp[r] = 0)
\* C14: a failed allocation changes nothing; stacks of others stay
FailAtomic == [][ op'[5] \in {Fails, Either} => s' = s ]_vars
OnlyMine == [][ \A r \in Rg : (s.rg[r] # "none" /\ s'.rg[r] = "none") =>
                   \/ op'[1] \in {"Free", "EndCtx", "DestroyCtx"} /\ op'[3] = r
                   \/ Pool /\ s.rg[r] = "raw" /\ s'.ref[s.rgrp[r]] = 0 ]_vars
View == s
=============================================================================
