------------------------------ MODULE Forward ------------------------------
(***************************************************************************)
(* What the invocation, apply, exchange and tuple helpers do with their    *)
(* arguments.  A behaviour builds one call: a helper, a callable, its      *)
(* arguments one by one; Run says what the callee and the caller see.      *)
(* The harness is a program with one case for every behaviour.             *)
(*                                                                         *)
(* Value categories: 1 lvalue  2 const lvalue  3 rvalue  4 const rvalue    *)
(* Arguments of invoke: 1..4 an object of that category, 5 a move-only     *)
(*   rvalue;  as object of a member pointer: 11..14 object of that         *)
(*   category, 15 pointer, 16 pointer to const, 17 reference_wrapper,      *)
(*   18 unique_ptr, 19 lvalue and 20 rvalue of a derived class, 21 pointer *)
(*   to derived                                                            *)
(* Elements of apply's container: 1 T, 2 T&, 3 T const&, 4 T&&; as object  *)
(*   of a member pointer: 11 object, 15 pointer, 17 reference_wrapper,     *)
(*   22 T&                                                                 *)
(* Elements of a source tuple of head / tail: 1 T, 2 T& (target T),        *)
(*   3 T& (target T&), 4 convertible to T, 5 move-only                     *)
(* Callables: 1 functor (category fc), 2 function pointer, 3 function,     *)
(*   4 member function pointer (qualifier fc: 1 none 2 const 3 & 4 const&  *)
(*   5 && 6 const&&), 5 member object pointer, 6 functor taking values,    *)
(*   7 functor that can be called only as the category fc it has           *)
(* Results: 1 void 2 value 3 T& 4 T const& 5 T&& 6 move-only value 7 throw *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxArgs, MaxLong, MaxMember, MaxCmds, Cmds
VARIABLES s, op, n
vars == <<s, op, n>>

Helper(h) == CASE h = "Invoke" -> 1 [] h = "Apply" -> 2 [] h = "Head" -> 3 [] h = "Tail" -> 4 [] h = "Exchange" -> 5

\* h helper; fk, fc callable; tk container 1 tuple 2 pair 3 array, tc its category; args
Init == /\ s = [ h |-> 0, fk |-> 0, fc |-> 0, tk |-> 0, tc |-> 0, args |-> <<>>, end |-> FALSE ]
        /\ op = <<"init">> /\ n = 0
Step(l, S) == s' = S /\ n' = n + 1 /\ op' = l

Choose(h) ==
  /\ s.h = 0
  /\ \E fk \in 0..7, fc \in 0..6, tk \in 0..3, tc \in 0..4 :
       /\ h \in {"Invoke", "Apply"} =>
            /\ fk # 0
            /\ fc \in (CASE fk \in {1, 7} -> 1..4 [] fk = 4 -> 1..6 [] OTHER -> {0})
       /\ h = "Invoke" => tk = 0 /\ tc = 0
       /\ h = "Apply" => tk # 0 /\ tc # 0 /\ (tk # 1 => fk = 1 /\ fc = 1) /\ (fk = 1 => fc \in {1, 3, tc}) /\ (fk = 7 => tc \in {1, 3})
       /\ h \in {"Head", "Tail"} => fk = 0 /\ fc = 0 /\ tk = 1 /\ tc \in {1, 3}
       /\ h = "Exchange" => fk = 0 /\ fc = 0 /\ tk = 0 /\ tc = 0
       /\ Step(<<h, fk, fc, tk, tc>>, [s EXCEPT !.h = Helper(h), !.fk = fk, !.fc = fc, !.tk = tk, !.tc = tc])

Member == s.h \in {1, 2} /\ s.fk \in {4, 5}

\* category of std::get on a container of category tc with element type e
GetCat(e, tc) ==
  CASE e \in {1, 11} -> tc
    [] e \in {2, 22} -> 1
    [] e = 3 -> 2
    [] e = 4 -> IF tc \in {1, 2} THEN 1 ELSE 3
\* category of the object a member pointer is applied to
ObjCat(a) ==
  IF s.h = 2 THEN IF a \in {11, 22} THEN GetCat(a, s.tc) ELSE 1
  ELSE CASE a \in 11..14 -> a - 10 [] a \in {15, 17, 18, 19, 21} -> 1 [] a = 16 -> 2 [] a = 20 -> 3
Callable(q, c) ==
  CASE q = 1 -> c \in {1, 3} [] q = 2 -> TRUE [] q = 3 -> c = 1 [] q = 4 -> c \in {1, 2} [] q = 5 -> c = 3 [] q = 6 -> c \in {3, 4}

Arg(a) ==
  /\ s.h # 0 /\ ~s.end
  /\ LET k == Len(s.args) + 1 IN
     /\ IF k <= MaxArgs THEN TRUE
        ELSE k <= MaxLong /\ SubSeq(s.args, 1, 3) = <<1, 3, 2>> /\ a = s.args[k - 3] /\ s.h \in 1..4 /\ s.fk \notin {4, 5, 6, 7}
     /\ CASE s.h = 1 -> IF Member /\ k = 1 THEN a \in 11..21 /\ (s.fk = 4 => Callable(s.fc, ObjCat(a)))
                        ELSE a \in 1..4 \/ (a = 5 /\ s.fk = 6)
          [] s.h = 2 -> IF Member /\ k = 1 THEN a \in {11, 15, 17, 22} /\ (s.fk = 4 => Callable(s.fc, ObjCat(a)))
                        ELSE a \in 1..4
          [] s.h \in {3, 4} -> a \in 1..5 /\ (a = 5 => s.tc = 3)
          [] s.h = 5 -> a \in {1, 2, 3, 4, 5, 6, 7}
     /\ s.fk \in {5, 7} => k = 1
     /\ s.fk = 4 => k <= MaxMember
     /\ s.tk = 2 => k <= 2
     /\ s.tk = 3 => a = 1
     /\ s.h = 5 => k = 1
  /\ Step(<<"Arg", a>>, [s EXCEPT !.args = Append(@, a)])

(* What the callee sees of argument i: <<category, identity, copies, moves>>; identity: 1 the very
   object the caller gave *)
CatOf(i) == LET a == s.args[i] IN IF s.h = 1 THEN (IF a = 5 THEN 3 ELSE a) ELSE GetCat(a, s.tc)
Seen(i) ==
  LET c == CatOf(i) IN
  IF s.fk = 6 THEN << 0, 0, IF c = 3 THEN 0 ELSE 1, IF c = 3 THEN 1 ELSE 0 >>
  ELSE << c, 1, 0, 0 >>

First == IF Member THEN 2 ELSE 1
SeenAll == [i \in 1..(Len(s.args) - First + 1) |-> Seen(i + First - 1)]
\* category of the result
ResCat(r) ==
  IF s.fk = 5 THEN ObjCat(s.args[1])
  ELSE CASE r \in {1, 7} -> 0 [] r \in {2, 6} -> 5 [] r = 3 -> 1 [] r = 4 -> 2 [] r = 5 -> 3
Calls == IF s.fk = 5 THEN 0 ELSE 1
\* the callable itself as it was called: category of a functor, 1 + identity of the object
Self == CASE s.fk \in {1, 6, 7} -> IF s.fk = 6 THEN 1 ELSE s.fc [] s.fk = 4 -> s.fc [] OTHER -> 0

\* r: what the callee returns
Run(r) ==
  /\ s.h \in {1, 2} /\ ~s.end
  /\ Member => Len(s.args) > 0
  /\ s.fk = 5 => r = 2
  /\ Len(s.args) > 1 => r = 2
  /\ s.h = 2 => r \in {1, 2, 3, 5, 7}
  /\ s.tk = 2 => Len(s.args) = 2
  /\ s.tk = 3 => Len(s.args) > 0
  /\ s.fk = 6 => s.h = 1
  /\ Step(<<"Run", r, Calls, Self, SeenAll, ResCat(r)>>, [s EXCEPT !.end = TRUE])

(* head and tail with a target of m elements: for every element of the source <<delivered to, copies,
   left as moved from>>; then the order numbers in the target *)
RunTuple(m) ==
  /\ s.h \in {3, 4} /\ ~s.end /\ m <= Len(s.args)
  /\ Len(s.args) > MaxArgs => m \in {0, 1, Len(s.args) - 1, Len(s.args)}
  /\ LET k   == Len(s.args)
         off == IF s.h = 3 THEN 0 ELSE k - m
         Mv(i)  == s.tc = 3 /\ s.args[i] \in {1, 4, 5}
         El(i)  == IF i > off /\ i <= off + m
                   THEN << i - off, IF s.args[i] = 4 \/ Mv(i) THEN 0 ELSE 1, IF Mv(i) THEN 1 ELSE 0 >>
                   ELSE << 0, 0, 0 >>
     IN Step(<<"RunTuple", m, [i \in 1..k |-> El(i)]>>, [s EXCEPT !.end = TRUE])

(* exchange: argument 1 lvalue 2 const lvalue 3 rvalue of the same type, 4 lvalue and 5 rvalue of a
   convertible type, 6 move-only rvalue, 7 the default second type.
   old value returned without copy; the new one arrives with that many copies; source moved from *)
RunExchange ==
  /\ s.h = 5 /\ ~s.end /\ Len(s.args) = 1
  /\ LET a == s.args[1] IN
     Step(<<"RunExchange", 1, 0, IF a \in {1, 2} THEN 1 ELSE 0, IF a \in {3, 5, 6, 7} THEN 1 ELSE 0>>, [s EXCEPT !.end = TRUE])

Do(a) == /\ n < MaxCmds
         /\ CASE a \in {"Invoke", "Apply", "Head", "Tail", "Exchange"} -> Choose(a)
              [] a = "Arg" -> \E x \in 1..22 : Arg(x)
              [] a = "Run" -> \E r \in 1..7 : Run(r)
              [] a = "RunTuple" -> \E m \in 0..MaxLong : RunTuple(m)
              [] a = "RunExchange" -> RunExchange
Next == \E a \in Cmds : Do(a)
Spec == Init /\ [][Next]_vars

\* every argument is seen exactly once, in order and without a copy unless the callee takes values
Exact == [][ op'[1] = "Run" => /\ op'[3] <= 1
                               /\ Len(op'[5]) = Len(s.args) - First + 1
                               /\ s.fk # 6 => \A i \in 1..Len(op'[5]) : op'[5][i][2] = 1 /\ op'[5][i][3] = 0 ]_vars
\* head and tail deliver m elements in order, never copy what they may move, never touch the others
Elements == [][ op'[1] = "RunTuple" =>
   LET E == op'[3] D == {i \in 1..Len(E) : E[i][1] # 0} IN
   /\ Cardinality(D) = op'[2]
   /\ \A i, j \in D : i < j => E[i][1] + (j - i) = E[j][1]
   /\ (D # {} => IF s.h = 3 THEN 1 \in D ELSE Len(E) \in D)
   /\ \A i \in 1..Len(E) : E[i][2] + E[i][3] <= 1 /\ (E[i][3] = 1 => s.tc = 3) ]_vars
View == s
=============================================================================
