-------------------------------- MODULE CF --------------------------------
(***************************************************************************)
(* Computation frames: views of the graph of stored calls.                 *)
(*                                                                         *)
(* The stored graph G is what the database holds:                          *)
(*   G.calls : call -> [op, ins, outs], ins and outs : label -> {ref}      *)
(*   G.refs  : all stored refs                                             *)
(* A label is the name of an argument or output; all the items of a list   *)
(* share the label "elts" of __make_list__.                                *)
(*                                                                         *)
(* A frame F is a bipartite graph over named variables and functions:      *)
(*   F.vs : variable -> {ref},  F.fs : function -> {call}                  *)
(*   F.E  : {<<source, target, label>>}                                    *)
(* Everything else the code keeps in a frame (creators, consumers, ...) is *)
(* determined, up to the bounds in WfFails, by these three.                *)
(*                                                                         *)
(* Operations that are functions of their operands are defined as such;    *)
(* operations with freedom (names and placement of what expansion adds)    *)
(* are defined as predicates on operand and result.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE {}
LIn(G, c, l) == Get(G.calls[c].ins, l)
LOut(G, c, l) == Get(G.calls[c].outs, l)
Ins(G, c) == UNION {G.calls[c].ins[l] : l \in DOMAIN G.calls[c].ins}
Outs(G, c) == UNION {G.calls[c].outs[l] : l \in DOMAIN G.calls[c].outs}

Vars(F) == DOMAIN F.vs
Funs(F) == DOMAIN F.fs
Nodes(F) == Vars(F) \cup Funs(F)
Elts(F, n) == IF n \in Vars(F) THEN F.vs[n] ELSE F.fs[n]
View(F) == [n \in Nodes(F) |-> Elts(F, n)]
Refs(F) == UNION {F.vs[v] : v \in Vars(F)}
Calls(F) == UNION {F.fs[f] : f \in Funs(F)}
InE(F, n) == {e \in F.E : e[2] = n}
OutE(F, n) == {e \in F.E : e[1] = n}
Plain(F) == [vs |-> F.vs, fs |-> F.fs, E |-> F.E]
EmptyFun == [x \in {} |-> x]

----------------------------------------------------------------------------
(* Consistency.                                                            *)

\* A call of a function node has the refs it is related to along an edge in
\* the variable at the other end.
Closed(G, F) ==
  \A e \in F.E :
    IF e[2] \in Funs(F) THEN \A c \in F.fs[e[2]] : LIn(G, c, e[3]) \subseteq F.vs[e[1]]
    ELSE \A c \in F.fs[e[1]] : LOut(G, c, e[3]) \subseteq F.vs[e[2]]

\* an edge is along a label of the calls at its function
EdgeOk(G, F, e) ==
  IF e[1] \in Vars(F) /\ e[2] \in Funs(F)
  THEN F.fs[e[2]] # {} => \E c \in F.fs[e[2]], d \in DOMAIN G.calls : G.calls[c].op = G.calls[d].op /\ e[3] \in DOMAIN G.calls[d].ins
  ELSE /\ e[1] \in Funs(F) /\ e[2] \in Vars(F)
       /\ F.fs[e[1]] # {} => \E c \in F.fs[e[1]], d \in DOMAIN G.calls : G.calls[c].op = G.calls[d].op /\ e[3] \in DOMAIN G.calls[d].outs

\* the references that are connected to a call along an edge, as output and as input
Produced(G, F) == {<<r, c>> \in Refs(F) \X Calls(F) : \E e \in F.E : /\ e[1] \in Funs(F) /\ c \in F.fs[e[1]]
                                                                     /\ r \in LOut(G, c, e[3]) /\ r \in F.vs[e[2]]}
Used(G, F) == {<<r, c>> \in Refs(F) \X Calls(F) : \E e \in F.E : /\ e[2] \in Funs(F) /\ c \in F.fs[e[2]]
                                                                 /\ r \in LIn(G, c, e[3]) /\ r \in F.vs[e[1]]}

\* What is wrong with a frame and the maps the code keeps with it (D).
WfFails(G, F, D) ==
  LET bad(cond, name) == IF cond THEN <<>> ELSE <<name>>
      R == Refs(F)
      C == Calls(F)
  IN IF ~(R \subseteq G.refs) THEN <<"wf.ref-not-stored">>
     ELSE IF ~(C \subseteq DOMAIN G.calls) THEN <<"wf.call-not-stored">>
     ELSE IF Vars(F) \cap Funs(F) # {} THEN <<"wf.names">>
     ELSE IF \E e \in F.E : ~({e[1], e[2]} \subseteq Nodes(F)) THEN <<"wf.edge-node">>
     ELSE bad(\A e \in F.E : EdgeOk(G, F, e), "wf.edge")
       \o bad(D.dual, "wf.adjacency")
       \o bad(D.keys, "wf.keys")
       \o bad(D.refs = R, "wf.refs")
       \o bad(D.calls = C, "wf.calls")
       \o bad(\A r \in R : Get(D.ri, r) = {v \in Vars(F) : r \in F.vs[v]}, "wf.refinv")
       \o bad(\A r \in DOMAIN D.ri : D.ri[r] = {} \/ r \in R, "wf.refinv")
       \o bad(\A c \in C : Get(D.ci, c) = {f \in Funs(F) : c \in F.fs[f]}, "wf.callinv")
       \o bad(\A c \in DOMAIN D.ci : D.ci[c] = {} \/ c \in C, "wf.callinv")
       \o bad(\A x \in D.cr : x[1] \in R /\ x[2] \in C /\ x[1] \in Outs(G, x[2]), "wf.creator")
       \o bad(Produced(G, F) \subseteq D.cr, "wf.creator-missing")
       \o bad(\A x \in D.co : x[1] \in R /\ x[2] \in C /\ x[1] \in Ins(G, x[2]), "wf.consumer")
       \o bad(Used(G, F) \subseteq D.co, "wf.consumer-missing")

----------------------------------------------------------------------------
(* Neighbours of elements along an edge, final and initial elements.       *)
AdjFwd(G, F, e, S) ==
  IF e[1] \in Vars(F) THEN {c \in F.fs[e[2]] : LIn(G, c, e[3]) \cap S # {}}
  ELSE UNION {LOut(G, c, e[3]) : c \in S} \cap F.vs[e[2]]
AdjBack(G, F, e, S) ==
  IF e[2] \in Vars(F) THEN {c \in F.fs[e[1]] : LOut(G, c, e[3]) \cap S # {}}
  ELSE UNION {LIn(G, c, e[3]) : c \in S} \cap F.vs[e[1]]

SourceElts(G, F) == TLCEval([n \in Nodes(F) |-> Elts(F, n) \ UNION {AdjFwd(G, F, e, Elts(F, e[1])) : e \in InE(F, n)}])
SinkElts(G, F) == TLCEval([n \in Nodes(F) |-> Elts(F, n) \ UNION {AdjBack(G, F, e, Elts(F, e[2])) : e \in OutE(F, n)}])

AdjElts(G, F, n, S, dir) ==
  LET back == IF dir \in {"back", "both"} THEN InE(F, n) ELSE {}
      forw == IF dir \in {"forward", "both"} THEN OutE(F, n) ELSE {}
  IN [m \in {e[1] : e \in back} \cup {e[2] : e \in forw} |->
        UNION {AdjBack(G, F, e, S) : e \in {x \in back : x[1] = m}}
        \cup UNION {AdjFwd(G, F, e, S) : e \in {x \in forw : x[2] = m}}]

\* A call is strongly reachable if each of its inputs (outputs, going back)
\* along the labels of the function's edges is reachable in a variable there.
StrongCall(G, F, R, n, c, dir) ==
  LET es == IF dir = "forward" THEN InE(F, n) ELSE OutE(F, n)
      io == IF dir = "forward" THEN G.calls[c].ins ELSE G.calls[c].outs
      ls == {l \in DOMAIN io : io[l] # {} /\ \E e \in es : e[3] = l}
  IN /\ ls # {}
     /\ \A l \in ls : \A r \in io[l] : \E e \in es : e[3] = l /\ r \in R[IF dir = "forward" THEN e[1] ELSE e[2]]

ReachStep(G, F, R, dir, how) ==
  [n \in Nodes(F) |->
    R[n] \cup
    IF n \in Funs(F) /\ how = "strong" THEN {c \in F.fs[n] \ R[n] : StrongCall(G, F, R, n, c, dir)}
    ELSE IF dir = "forward" THEN UNION {AdjFwd(G, F, e, R[e[1]]) : e \in InE(F, n)}
    ELSE UNION {AdjBack(G, F, e, R[e[2]]) : e \in OutE(F, n)}]
RECURSIVE ReachFix(_, _, _, _, _)
ReachFix(G, F, R, dir, how) ==
  LET R2 == TLCEval(ReachStep(G, F, R, dir, how)) IN IF R2 = R THEN R ELSE ReachFix(G, F, R2, dir, how)
\* init: node -> elements, for some of the nodes
Reach(G, F, init, dir, how) == ReachFix(G, F, [n \in Nodes(F) |-> Get(init, n)], dir, how)

----------------------------------------------------------------------------
(* Restriction.                                                            *)
Select(F, N) ==
  [vs |-> [v \in Vars(F) \cap N |-> F.vs[v]], fs |-> [f \in Funs(F) \cap N |-> F.fs[f]],
   E |-> {e \in F.E : {e[1], e[2]} \subseteq N}]
Subsets(F, R) == [F EXCEPT !.vs = [v \in Vars(F) |-> R[v]], !.fs = [f \in Funs(F) |-> R[f]]]

RECURSIVE ClosureFix(_, _)
ClosureFix(S, E) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF T = S THEN S ELSE ClosureFix(T, E)
Down(F, S) == ClosureFix(S, F.E)
Up(F, S) == ClosureFix(S, {<<e[2], e[1], e[3]>> : e \in F.E})

Downstream(G, F, S, how) == LET H == Select(F, Down(F, S)) IN Subsets(H, Reach(G, H, [n \in S |-> Elts(F, n)], "forward", how))
Upstream(G, F, S, how) == LET H == Select(F, Up(F, S)) IN Subsets(H, Reach(G, H, [n \in S |-> Elts(F, n)], "back", how))

\* Nodes on walks (at most) and on simple paths (at least) between given nodes.
\* Without cycles these are the same.
BetweenMost(F, S) == S \cup UNION {Down(F, {s}) \cap Up(F, {t}) : <<s, t>> \in {x \in S \X S : x[1] # x[2]}}
RECURSIVE OnPaths(_, _, _, _)
OnPaths(F, n, t, seen) ==
  IF n = t THEN {n}
  ELSE LET subs == UNION {OnPaths(F, m, t, seen \cup {n}) : m \in {e[2] : e \in OutE(F, n)} \ (seen \cup {n})}
       IN IF subs = {} THEN {} ELSE {n} \cup subs
BetweenLeast(F, S) == S \cup UNION {OnPaths(F, x[1], x[2], {}) : x \in {y \in S \X S : y[1] # y[2]}}
BetweenOk(F, S, N) == LET M == BetweenMost(F, S) IN N = M \/ (N \subseteq M /\ BetweenLeast(F, S) \subseteq N)

Midstream(G, F, S, N, how) ==
  LET H == Select(F, N)
      src == SourceElts(G, H)
  IN Subsets(H, Reach(G, H, [n \in S \cap N |-> src[n]], "forward", how))

DropUnreachable(G, F, dir, how) ==
  Subsets(F, Reach(G, F, IF dir = "forward" THEN SourceElts(G, F) ELSE SinkElts(G, F), dir, how))
DropNodes(F, S) == Select(F, Nodes(F) \ S)
Cleanup(F) == DropNodes(F, {n \in Nodes(F) : Elts(F, n) = {}})

\* variables restricted to M, functions to the calls next to what remains
WithCalls(G, F, M) ==
  Subsets(F, [n \in Nodes(F) |->
    IF n \in Vars(F) THEN F.vs[n] \cap M
    ELSE UNION {AdjFwd(G, F, e, F.vs[e[1]] \cap M) : e \in InE(F, n)}
         \cup UNION {AdjBack(G, F, e, F.vs[e[2]] \cap M) : e \in OutE(F, n)}])

----------------------------------------------------------------------------
(* Set operations.                                                         *)
UnionF(f, g) == TLCEval([x \in DOMAIN f \cup DOMAIN g |-> Get(f, x) \cup Get(g, x)])
InterF(f, g) == [x \in DOMAIN f \cap DOMAIN g |-> f[x] \cap g[x]]
Union2(A, B) == [vs |-> UnionF(A.vs, B.vs), fs |-> UnionF(A.fs, B.fs), E |-> A.E \cup B.E]
Inter2(A, B) == [vs |-> InterF(A.vs, B.vs), fs |-> InterF(A.fs, B.fs), E |-> A.E \cap B.E]
\* what is left without the elements of B and without what could only be
\* computed from them
Diff2(G, A, B) ==
  Cleanup(DropUnreachable(G, Subsets(A, [n \in Nodes(A) |-> Elts(A, n) \ (IF n \in Nodes(B) THEN Elts(B, n) ELSE {})]),
                          "forward", "strong"))

----------------------------------------------------------------------------
(* Changing how elements are shown.                                        *)
RenameE(E, x, y) == {<<IF e[1] = x THEN y ELSE e[1], IF e[2] = x THEN y ELSE e[2], e[3]>> : e \in E}
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
RenameVar(F, x, y) ==
  IF x = y THEN F ELSE [F EXCEPT !.vs = Without(@, x) @@ (y :> F.vs[x]), !.E = RenameE(@, x, y)]
\* at the level of sets, moving everything and redirecting edges
MergeInto(F, x, y) == [F EXCEPT !.vs = [Without(@, x) EXCEPT ![y] = @ \cup F.vs[x]], !.E = RenameE(@, x, y)]
MoveRef(F, x, y, r) == [F EXCEPT !.vs = [[@ EXCEPT ![x] = @ \ {r}] EXCEPT ![y] = @ \cup {r}]]

Proper(a, b) == a \subseteq b /\ a # b
\* merging variables into ones with more elements until there is no such pair
MergeVarsFails(F, H) ==
  LET gone == Vars(F) \ Vars(H)
      edges(x) == InE(F, x) \cup OutE(F, x)
      cands(x) == IF x \in gone THEN {k \in Vars(H) : Proper(F.vs[x], F.vs[k])} ELSE {x}
  IN IF ~(Vars(H) \subseteq Vars(F)) THEN <<"mergevars.new">>
     ELSE IF H.fs # F.fs \/ \E v \in Vars(H) : H.vs[v] # F.vs[v] THEN <<"mergevars.elements">>
     ELSE IF \E v, w \in Vars(H) : Proper(H.vs[v], H.vs[w]) THEN <<"mergevars.not-merged">>
     ELSE IF \E x \in gone : ~\E k \in cands(x) : RenameE(edges(x), x, k) \subseteq H.E THEN <<"mergevars.edges">>
     ELSE IF \E h \in H.E : ~\E e \in F.E : /\ e[3] = h[3]
                                            /\ IF e[1] \in Vars(F) THEN h[2] = e[2] /\ h[1] \in cands(e[1])
                                               ELSE h[1] = e[1] /\ h[2] \in cands(e[2]) THEN <<"mergevars.edges">>
     ELSE IF \E e \in F.E : (e[1] \notin gone /\ e[2] \notin gone) /\ e \notin H.E THEN <<"mergevars.edges">>
     ELSE <<>>

----------------------------------------------------------------------------
(* Construction.                                                           *)
CallsOf(G, op) == {c \in DOMAIN G.calls : G.calls[c].op = op}
LabelsIn(G, C) == UNION {DOMAIN G.calls[c].ins : c \in C}
LabelsOut(G, C) == UNION {DOMAIN G.calls[c].outs : c \in C}
FromOpFails(G, op, H) ==
  LET C == CallsOf(G, op)
  IN IF Cardinality(Funs(H)) # 1 \/ Calls(H) # C THEN <<"fromop.calls">>
     ELSE LET f == CHOOSE x \in Funs(H) : TRUE IN
          IF {e[3] : e \in InE(H, f)} # LabelsIn(G, C) \/ {e[3] : e \in OutE(H, f)} # LabelsOut(G, C) THEN <<"fromop.labels">>
          ELSE IF \E v \in Vars(H) : Cardinality(InE(H, v) \cup OutE(H, v)) # 1 THEN <<"fromop.vars">>
          ELSE IF \E e \in H.E : IF e[2] = f THEN H.vs[e[1]] # UNION {LIn(G, c, e[3]) : c \in C}
                                 ELSE H.vs[e[2]] # UNION {LOut(G, c, e[3]) : c \in C} THEN <<"fromop.elements">>
          ELSE <<>>
FromRefsFails(R, H) ==
  IF Funs(H) # {} \/ H.E # {} \/ Cardinality(Vars(H)) # 1 \/ Refs(H) # R THEN <<"fromrefs">> ELSE <<>>
FromVars(V) == [vs |-> V, fs |-> EmptyFun, E |-> {}]

----------------------------------------------------------------------------
(* Expansion.                                                              *)
Creators(G, R) == {c \in DOMAIN G.calls : Outs(G, c) \cap R # {}}
Consumers(G, R) == {c \in DOMAIN G.calls : Ins(G, c) \cap R # {}}
NextCalls(G, R, dir) == IF dir = "back" THEN Creators(G, R) ELSE Consumers(G, R)
\* the elements expansion starts from
Ends(G, F, V, dir) ==
  LET S == IF dir = "back" THEN SourceElts(G, F) ELSE SinkElts(G, F) IN [v \in V |-> S[v]]

RECURSIVE AncFix(_, _, _)
AncFix(G, C, dirs) ==
  LET D == C \cup (IF "back" \in dirs THEN Creators(G, UNION {Ins(G, c) : c \in C}) ELSE {})
             \cup (IF "forward" \in dirs THEN Consumers(G, UNION {Outs(G, c) : c \in C}) ELSE {})
             \cup (IF dirs = {"back", "forward"} THEN Creators(G, UNION {Outs(G, c) : c \in C}) \cup Consumers(G, UNION {Ins(G, c) : c \in C}) ELSE {})
  IN IF D = C THEN C ELSE AncFix(G, D, dirs)
\* all calls that history (in the given directions) from the frame can lead to
Possible(G, F, dirs) ==
  LET R == Refs(F) \cup UNION {Ins(G, c) \cup Outs(G, c) : c \in Calls(F)}
      S == (IF "back" \in dirs THEN Creators(G, R) ELSE {}) \cup (IF "forward" \in dirs THEN Consumers(G, R) ELSE {})
  IN Calls(F) \cup AncFix(G, S, dirs)

\* what every expansion keeps to: F grows to H by the calls A (some of which
\* may have been in F)
GrowFails(G, F, H, dirs, reuse) ==
  LET new == Calls(H) \ Calls(F)
      fsH(v) == {e \in H.E : v \in {e[1], e[2]}}
      along(e) == IF e[2] \in Funs(H) THEN UNION {LIn(G, c, e[3]) : c \in H.fs[e[2]]} ELSE UNION {LOut(G, c, e[3]) : c \in H.fs[e[1]]}
      ops(X, f) == {G.calls[c].op : c \in X.fs[f]}
  IN IF ~(Vars(F) \subseteq Vars(H) /\ Funs(F) \subseteq Funs(H) /\ F.E \subseteq H.E) THEN <<"expand.lost-nodes">>
     ELSE IF \E n \in Nodes(F) : ~(Elts(F, n) \subseteq Elts(H, n)) THEN <<"expand.lost-elements">>
     ELSE IF \E n \in Nodes(H) \ Nodes(F) : Elts(H, n) = {} THEN <<"expand.empty-node">>
     ELSE IF \E f \in Funs(H) : Cardinality(ops(H, f)) > 1 THEN <<"expand.mixed-function">>
     ELSE IF \E v \in Vars(H) : ~(H.vs[v] \subseteq (Get(F.vs, v) \cup UNION {along(e) : e \in fsH(v)})) THEN <<"expand.unrelated-ref">>
     ELSE IF \E e \in H.E \ F.E : along(e) = {} THEN <<"expand.unrelated-edge">>
     ELSE IF Closed(G, F) /\ ~Closed(G, H) THEN <<"expand.not-closed">>
     ELSE IF \E c \in new : ~\E f \in Funs(H) :
               /\ c \in H.fs[f]
               /\ \/ "back" \in dirs /\ DOMAIN G.calls[c].ins \subseteq {e[3] : e \in InE(H, f)}
                  \/ "forward" \in dirs /\ DOMAIN G.calls[c].outs \subseteq {e[3] : e \in OutE(H, f)} THEN <<"expand.unconnected">>
     ELSE IF reuse /\ \E f, g \in Funs(H) : f # g /\ g \notin Funs(F) /\ ops(H, f) = ops(H, g) THEN <<"expand.not-reused">>
     ELSE IF ~reuse /\ \E f \in Funs(F) : H.fs[f] # F.fs[f] THEN <<"expand.reused">>
     ELSE <<>>

ConnectedAfter(G, H, dir, v, r) ==
  r \notin (IF dir = "back" THEN SourceElts(G, H) ELSE SinkElts(G, H))[v]

RoundFails(G, F, H, dir, V, skip, reuse) ==
  LET ends == Ends(G, F, V, dir)
      R == UNION {ends[v] : v \in V}
      A == NextCalls(G, R, dir) \ (IF skip THEN Calls(F) ELSE {})
      g == GrowFails(G, F, H, {dir}, reuse)
  IN IF g # <<>> THEN g
     ELSE IF Calls(H) # Calls(F) \cup A THEN <<"expand.calls">>
     ELSE IF \E e \in H.E \ F.E : H.fs[IF e[1] \in Funs(H) THEN e[1] ELSE e[2]] \cap A = {} THEN <<"expand.edge">>
     ELSE IF \E v \in V : \E r \in ends[v] : NextCalls(G, {r}, dir) \cap A # {} /\ ~ConnectedAfter(G, H, dir, v, r) THEN <<"expand.unconnected">>
     ELSE <<>>

\* nothing left to add in a direction
Done(G, H, dir, skip) ==
  LET ends == Ends(G, H, Vars(H), dir)
  IN NextCalls(G, UNION {ends[v] : v \in Vars(H)}, dir) \subseteq (IF skip THEN Calls(H) ELSE {})

FullFails(G, F, H, dirs, skip, reuse) ==
  LET g == GrowFails(G, F, H, dirs, reuse)
      new == Calls(H) \ Calls(F)
  IN IF g # <<>> THEN g
     ELSE IF ~(Calls(H) \subseteq Possible(G, F, dirs)) THEN <<"expand.calls">>
     ELSE IF \E d \in dirs : ~Done(G, H, d, skip) THEN <<"expand.not-finished">>
     ELSE IF \E c \in new : ~("back" \in dirs /\ Ins(G, c) \subseteq Refs(H)) /\ ~("forward" \in dirs /\ Outs(G, c) \subseteq Refs(H)) THEN <<"expand.missing">>
     ELSE IF (\A d \in dirs : Done(G, F, d, skip)) /\ Plain(H) # Plain(F) THEN <<"expand.again">>
     ELSE <<>>

----------------------------------------------------------------------------
(* History of elements within a frame.                                     *)
HistStep(G, F, H) ==
  LET prods(v, r) == {e \in InE(F, v) : \E c \in F.fs[e[1]] : r \in LOut(G, c, e[3])}
      calls == TLCEval([f \in Funs(F) |-> {c \in F.fs[f] : \E v \in DOMAIN H \cap Vars(F) : \E e \in InE(F, v) : e[1] = f /\ LOut(G, c, e[3]) \cap H[v] # {}}])
      refs == TLCEval([v \in Vars(F) |-> UNION {LIn(G, c, e[3]) : <<c, e>> \in {<<c2, e2>> \in Calls(F) \X OutE(F, v) : c2 \in calls[e2[2]]}} \cap F.vs[v]])
      add == [n \in {f \in Funs(F) : calls[f] # {}} \cup {v \in Vars(F) : refs[v] # {}} |-> IF n \in Funs(F) THEN calls[n] ELSE refs[n]]
  IN UnionF(H, add)
RECURSIVE HistFix(_, _, _)
HistFix(G, F, H) == LET H2 == TLCEval(HistStep(G, F, H)) IN IF H2 = H THEN H ELSE HistFix(G, F, H2)
History(G, F, v, S) == HistFix(G, F, v :> S)

----------------------------------------------------------------------------
(* Tables: a set of columns and a sequence of rows, column -> {element},   *)
(* {} for an empty cell.                                                   *)
HistTable(G, F, v) ==
  LET hs == TLCEval([r \in F.vs[v] |-> History(G, F, v, {r})])
      cols == UNION {DOMAIN hs[r] : r \in F.vs[v]}
      rs == SetToSeq(F.vs[v])
  IN [cols |-> cols, rows |-> TLCEval([j \in 1..Len(rs) |-> [c \in cols |-> Get(hs[rs[j]], c)]])]

\* Rows are combined if they agree on all shared columns and have an entry in
\* at least one of them; other rows are kept as they are.
Join(A, B, how) ==
  LET sh == A.cols \cap B.cols
      cols == A.cols \cup B.cols
      pad(r) == [c \in cols |-> Get(r, c)]
      joins(r) == \E c \in sh : r[c] # {}
      pairs == TLCEval({x \in (1..Len(A.rows)) \X (1..Len(B.rows)) : joins(A.rows[x[1]]) /\ \A c \in sh : A.rows[x[1]][c] = B.rows[x[2]][c]})
      ps == SetToSeq(pairs)
      both == [j \in 1..Len(ps) |-> [c \in cols |-> Get(A.rows[ps[j][1]], c) \cup Get(B.rows[ps[j][2]], c)]]
      as == SetToSeq((1..Len(A.rows)) \ {x[1] : x \in pairs})
      bs == SetToSeq((1..Len(B.rows)) \ {x[2] : x \in pairs})
  IN [cols |-> cols,
      rows |-> TLCEval(IF how = "inner" THEN both
                       ELSE both \o [j \in 1..Len(as) |-> pad(A.rows[as[j]])] \o [j \in 1..Len(bs) |-> pad(B.rows[bs[j]])])]

JointTable(G, F, order, how) ==
  FoldLeft(LAMBDA acc, v : Join(acc, HistTable(G, F, v), how), HistTable(G, F, order[1]), Tail(order))

Finals(G, F) == LET S == SinkElts(G, F) IN {v \in Vars(F) : S[v] # {}}
\* orders in which nothing comes before what it is computed from
Orders(F, V) ==
  {p \in [1..Cardinality(V) -> V] : /\ {p[j] : j \in DOMAIN p} = V
                                    /\ \A i, j \in DOMAIN p : i < j => ~(p[i] \in Down(F, {p[j]}) /\ p[j] \notin Down(F, {p[i]}))}
BagOf(s) == [x \in ToSet(s) |-> Cardinality({j \in DOMAIN s : s[j] = x})]
Project(T, cols) == LET cs == T.cols \cap cols IN [cols |-> cs, rows |-> TLCEval([j \in 1..Len(T.rows) |-> [c \in cs |-> T.rows[j][c]]])]
TopoOk(F, order) ==
  /\ Len(order) = Cardinality(ToSet(order))
  /\ \A i, j \in DOMAIN order : i < j => ~(order[i] \in Down(F, {order[j]}) /\ order[j] \notin Down(F, {order[i]}))
=============================================================================
