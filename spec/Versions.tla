------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* Versioned storages: which calls are served and which are executed while *)
(* the code changes, what a call depends on, and the history of the code   *)
(* (P10, P11, P12).                                                        *)
(*                                                                         *)
(* A component is a memoized function, a tracked function or method, or a  *)
(* global variable; its contents (source texts, values) have names.  The   *)
(* world W gives the meaning of contents: W.body[k] is a sequence of       *)
(* statements for functions, W.value[k] a number for global variables.     *)
(* Statements are records [t, c, d, p, s]: a kind, a component, two        *)
(* numbers and nested statements.  W.ops are the memoized functions; W.tg   *)
(* says whether global variables are tracked.                              *)
(*                                                                         *)
(* A state is                                                              *)
(*   code   component -> content, as it is now ("?" if there is none); in  *)
(*          a context, as it was when the context was entered (or, of      *)
(*          what was not known then, when it was first used)               *)
(*   rt     global variable -> content, if it was assigned in the context  *)
(*   dag    known component -> content seen -> content it is equivalent to *)
(*   head   known component -> content at the last synchronization         *)
(*   hists  sequence of histories of values: [op, h, sem, val], op = ""    *)
(*          for a constant                                                 *)
(*   recs   recorded calls [op, h, x, sem, cont, val, out]: argument with  *)
(*          history h and value x, result with history out and value val;  *)
(*          sem is a set of <<component, class>> and cont a set of         *)
(*          <<component, content>>: what the call used                     *)
(*   vers   versions [op, sem, cont]                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mod == 997
EmptyFun == [x \in {} |-> 0]
Init0(code) == [code |-> code, rt |-> EmptyFun, dag |-> EmptyFun, head |-> EmptyFun, hists |-> <<>>, recs |-> {}, vers |-> {}]

----------------------------------------------------------------------------
(* The history of the code.                                                *)
\* known components whose content is new
Changed(S) == {c \in DOMAIN S.dag : S.code[c] \notin DOMAIN S.dag[c]}
\* the state after the known components in C are brought up to date; ans says whether changes matter
SyncOf(S, C, ans) ==
  [S EXCEPT
     !.dag = [c \in DOMAIN S.dag |->
                IF c \in C /\ S.code[c] \notin DOMAIN S.dag[c]
                THEN S.dag[c] @@ (S.code[c] :> IF ans = "y" THEN S.code[c] ELSE S.dag[c][S.head[c]])
                ELSE S.dag[c]],
     !.head = [c \in DOMAIN S.head |-> IF c \in C THEN S.code[c] ELSE S.head[c]]]
Sync(S, ans) == SyncOf(S, DOMAIN S.dag, ans)
Refused(S, ans) == ans = "a" /\ Changed(S) # {}
\* what is read
Now(S, c) == IF c \in DOMAIN S.rt THEN S.rt[c] ELSE S.code[c]
\* a call that read a variable that has changed since the context was entered cannot be recorded
Moved(S, rd) == \E p \in rd : p[1] \in DOMAIN S.dag /\ S.code[p[1]] # p[2]
\* components used for the first time
Learn(S, used) ==
  LET new == {p \in used : p[1] \notin DOMAIN S.dag}
      cs == {p[1] : p \in new}
      as == [c \in cs |-> (CHOOSE p \in new : p[1] = c)[2]]
  IN [S EXCEPT !.dag = @ @@ [c \in cs |-> (as[c] :> as[c])],
               !.head = @ @@ as,
               !.code = as @@ @]
\* the code is looked at again: a context is entered, or the outermost one is left
Leave(S) == [S EXCEPT !.code = S.rt @@ @, !.rt = EmptyFun]
\* the recorded call is what running the code as it is now would give
Valid(S, r) == \A p \in r.sem : S.code[p[1]] \in DOMAIN S.dag[p[1]] /\ S.dag[p[1]][S.code[p[1]]] = p[2]

----------------------------------------------------------------------------
(* Histories.                                                              *)
HistOf(S, x) == LET J == {j \in DOMAIN S.hists : S.hists[j] = x} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE
WithHist(S, x) == IF HistOf(S, x) = 0 THEN [S EXCEPT !.hists = Append(@, x)] ELSE S
ConstHist(v) == [op |-> "", h |-> 0, sem |-> {}, val |-> v]

----------------------------------------------------------------------------
(* Running the code.  A result is [S, acc, exc, used, rd, ex]: the state,  *)
(* the value, the exception raised ("" if none), the contents used, those  *)
(* of variables it read itself, and the functions that were executed, in   *)
(* order.  In mode "noop" memoization is off, in mode "dark" too, but the  *)
(* call is part of one that is recorded.                                   *)
RECURSIVE Fun(_, _, _, _, _), Body(_, _, _, _, _, _), Stmt(_, _, _, _, _, _), OpCall(_, _, _, _, _)

Add(R, Q) == [S |-> Q.S, acc |-> IF Q.exc # "" THEN R.acc ELSE (R.acc + Q.acc) % Mod, exc |-> Q.exc,
              used |-> R.used \cup Q.used, rd |-> R.rd \cup Q.rd, ex |-> R.ex \o Q.ex]

Fun(W, S, m, c, x) ==
  Body(W, m, c, [S |-> S, acc |-> 0, exc |-> "", rd |-> {}, used |-> {<<c, S.code[c]>>}, ex |-> <<c>>], W.body[S.code[c]], x)

Body(W, m, f, R, stmts, x) ==
  IF stmts = <<>> \/ R.exc # "" THEN R ELSE Body(W, m, f, TLCEval(Stmt(W, m, f, R, Head(stmts), x)), Tail(stmts), x)

\* a call in the body of a function
Inner(W, S, m, c, x) ==
  IF c \in W.ops /\ m = "run" THEN LET T == TLCEval(WithHist(S, ConstHist(x))) IN OpCall(W, T, c, x, HistOf(T, ConstHist(x)))
  ELSE Fun(W, S, m, c, x)

Stmt(W, m, f, R, s, x) ==
  CASE s.t = "const" -> [R EXCEPT !.acc = (@ + s.d) % Mod]
    [] s.t = "arg" -> [R EXCEPT !.acc = (@ + x * s.d) % Mod]
    [] s.t = "glob" -> [R EXCEPT !.acc = (@ + W.value[Now(R.S, s.c)]) % Mod,
                                  !.used = @ \cup (IF W.tg THEN {<<s.c, Now(R.S, s.c)>>} ELSE {}),
                                  !.rd = @ \cup (IF W.tg THEN {<<s.c, Now(R.S, s.c)>>} ELSE {})]
    [] s.t = "call" -> Add(R, TLCEval(Inner(W, R.S, m, s.c, x + s.d)))
    [] s.t = "self" -> IF x > 0 /\ x < 4 THEN Add(R, TLCEval(Inner(W, R.S, m, f, x - 1))) ELSE R
    [] s.t = "noop" -> Add(R, TLCEval(Inner(W, R.S, IF m = "noop" THEN m ELSE "dark", s.c, x + s.d)))
    \* code of the program that is not tracked cannot be part of a recorded call
    [] s.t = "bare" -> IF m = "noop" THEN [R EXCEPT !.acc = (@ + s.d) % Mod] ELSE [R EXCEPT !.exc = "ValueError"]
    \* a function of the program is called that calls back the rest
    [] s.t = "back" -> Body(W, m, f, [R EXCEPT !.used = @ \cup {<<s.c, R.S.code[s.c]>>}, !.ex = Append(@, s.c)], s.s, x)
    [] s.t = "if" -> IF x % 3 = s.p THEN Body(W, m, f, R, s.s, x) ELSE R
    [] s.t = "ifacc" -> IF R.acc % 3 = s.p THEN Body(W, m, f, R, s.s, x) ELSE R
    [] s.t = "try" -> LET Q == TLCEval(Body(W, m, f, R, s.s, x)) IN IF Q.exc = "Boom" THEN [Q EXCEPT !.exc = "", !.acc = (@ + s.d) % Mod] ELSE Q
    [] s.t = "raise" -> IF x % 3 = s.p THEN [R EXCEPT !.exc = "Boom"] ELSE R

\* a memoized call with an argument of value x and history h; out is the history of the result
OpCall(W, S, c, x, h) ==
  LET same == TLCEval({r \in S.recs : r.op = c /\ r.x = x /\ Valid(S, r)})
      mine == {r \in same : r.h = h}
      Res(T, r, ex) == [S |-> T, acc |-> r.val, exc |-> "", used |-> r.cont, rd |-> {}, ex |-> ex, out |-> r.out]
      \* records a call like r, but with this argument
      Record(T, r, ex) ==
        LET hist == [op |-> c, h |-> h, sem |-> r.sem, val |-> r.val]
            T1 == WithHist(T, hist)
            rec == [op |-> c, h |-> h, x |-> x, sem |-> r.sem, cont |-> r.cont, val |-> r.val, out |-> HistOf(T1, hist)]
        IN Res([T1 EXCEPT !.recs = @ \cup {rec}], rec, ex)
  IN IF mine # {} THEN Res(S, CHOOSE r \in mine : TRUE, <<>>)
     ELSE IF same # {} THEN Record(S, CHOOSE r \in same : TRUE, <<>>)
     ELSE LET Q == TLCEval(Fun(W, S, "run", c, x))
              T == TLCEval(Learn(Q.S, Q.used))
              sem == TLCEval({<<p[1], T.dag[p[1]][p[2]]>> : p \in Q.used})
          IN IF Q.exc # "" \/ Moved(Q.S, Q.rd)
                THEN [S |-> Q.S, acc |-> 0, exc |-> IF Q.exc # "" THEN Q.exc ELSE "ValueError", used |-> Q.used, rd |-> Q.rd, ex |-> Q.ex, out |-> 0]
             ELSE Record([T EXCEPT !.vers = @ \cup {[op |-> c, sem |-> sem, cont |-> Q.used]}],
                         [sem |-> sem, cont |-> Q.used, val |-> Q.acc], Q.ex)

----------------------------------------------------------------------------
(* Dropping.                                                               *)
RECURSIVE Dependents(_, _)
Dependents(S, D) ==
  LET more == {r \in S.recs \ D : \E q \in D : r.h = q.out}
  IN IF more = {} THEN D ELSE Dependents(S, D \cup more)
DropRecs(S, D, deps) == [S EXCEPT !.recs = @ \ (IF deps THEN Dependents(S, D) ELSE D)]
DropVersion(S, sem) ==
  [DropRecs(S, {r \in S.recs : r.sem = sem}, TRUE) EXCEPT !.vers = {v \in @ : v.sem # sem}]
=============================================================================
