------------------------------- MODULE CFMC --------------------------------
(***************************************************************************)
(* The operations of CF on all frames over small stored graphs: a diamond, *)
(* a chain whose variables were merged (a cycle), a function with two      *)
(* inputs of one variable, and a list.  Frames are all restrictions of a   *)
(* frame of the whole graph; the laws are what P13, P15 and P16 say about  *)
(* the operations, in a form that does not mention their definitions.      *)
(***************************************************************************)
EXTENDS CF, IOUtils

CONSTANTS Pairs,      \* pairs of frames
          Ws,         \* which graphs
          MaxS        \* size of the selections of nodes
VARIABLES w, F, S, H, go
vars == <<w, F, S, H, go>>

C(op, ins, outs) == [op |-> op, ins |-> ins, outs |-> outs]
E1(v, f, l) == <<v, f, l>>
World(calls, refs, vs, fs, E) == [G |-> [calls |-> calls, refs |-> refs], F |-> [vs |-> vs, fs |-> fs, E |-> E]]

\* x -> f -> y ; (y, y) -> h -> z
Two == World(
  [f1 |-> C("f", [x |-> {"x1"}], [o |-> {"y1"}]), f2 |-> C("f", [x |-> {"x2"}], [o |-> {"y2"}]),
   h1 |-> C("h", [a |-> {"y1"}, b |-> {"y2"}], [o |-> {"z1"}]), h2 |-> C("h", [a |-> {"y2"}, b |-> {"y2"}], [o |-> {"z2"}])],
  {"x1", "x2", "y1", "y2", "z1", "z2"},
  [X |-> {"x1", "x2"}, Y |-> {"y1", "y2"}, Z |-> {"z1", "z2"}], [f |-> {"f1", "f2"}, h |-> {"h1", "h2"}],
  {<<"X", "f", "x">>, <<"f", "Y", "o">>, <<"Y", "h", "a">>, <<"Y", "h", "b">>, <<"h", "Z", "o">>})
\* a -> f -> b, a -> g -> c, (b, c) -> h -> d
Diamond == World(
  [f1 |-> C("f", [x |-> {"a1"}], [o |-> {"b1"}]), g1 |-> C("g", [x |-> {"a1"}], [o |-> {"c1"}]),
   h1 |-> C("h", [p |-> {"b1"}, q |-> {"c1"}], [o |-> {"d1"}]), h2 |-> C("h", [p |-> {"b1"}, q |-> {"c2"}], [o |-> {"d2"}])],
  {"a1", "b1", "c1", "c2", "d1", "d2"},
  [A |-> {"a1"}, B |-> {"b1"}, Cv |-> {"c1", "c2"}, D |-> {"d1", "d2"}], [f |-> {"f1"}, g |-> {"g1"}, h |-> {"h1", "h2"}],
  {<<"A", "f", "x">>, <<"f", "B", "o">>, <<"A", "g", "x">>, <<"g", "Cv", "o">>, <<"B", "h", "p">>, <<"Cv", "h", "q">>, <<"h", "D", "o">>})
\* f applied again and again, with one variable for all; another input
Loop == World(
  [f1 |-> C("f", [x |-> {"r0"}, k |-> {"k1"}], [o |-> {"r1"}]), f2 |-> C("f", [x |-> {"r1"}, k |-> {"k2"}], [o |-> {"r2"}]),
   f3 |-> C("f", [x |-> {"r2"}, k |-> {"k1"}], [o |-> {"r3"}])],
  {"r0", "r1", "r2", "r3", "k1", "k2"},
  [V |-> {"r0", "r1", "r2", "r3"}, K |-> {"k1", "k2"}], [f |-> {"f1", "f2", "f3"}],
  {<<"V", "f", "x">>, <<"K", "f", "k">>, <<"f", "V", "o">>})
\* a list of three items, used by t; items share a label; two outputs
Lists == World(
  [m1 |-> C("m", [elts |-> {"e1", "e2"}], [list |-> {"l1"}]), m2 |-> C("m", [elts |-> {"e1"}], [list |-> {"l2"}]),
   t1 |-> C("t", [a |-> {"l1"}], [p |-> {"u1"}, q |-> {"w1"}]), t2 |-> C("t", [a |-> {"l2"}], [p |-> {"u2"}, q |-> {"w2"}])],
  {"e1", "e2", "l1", "l2", "u1", "u2", "w1", "w2"},
  [I |-> {"e1", "e2"}, L |-> {"l1", "l2"}, O |-> {"u1", "u2", "w1"}], [m |-> {"m1", "m2"}, t |-> {"t1", "t2"}],
  {<<"I", "m", "elts">>, <<"m", "L", "list">>, <<"L", "t", "a">>, <<"t", "O", "p">>})

Worlds == <<Two, Diamond, Loop, Lists>>
RECURSIVE Maps(_, _)
Maps(f, D) == IF D = {} THEN {EmptyFun}
              ELSE LET x == CHOOSE y \in D : TRUE IN {m @@ (x :> s) : m \in Maps(f, D \ {x}), s \in SUBSET f[x]}
Restrictions(X) == {[X.F EXCEPT !.vs = v, !.fs = c] : v \in Maps(X.F.vs, DOMAIN X.F.vs), c \in Maps(X.F.fs, DOMAIN X.F.fs)}
Few(X) == {Y \in Restrictions(X) : Closed(X.G, Y)}

Init == /\ w \in Ws /\ F \in {Worlds[w].F} /\ S = {} /\ H = F /\ go = 0
\* first a frame, then a selection or another frame
Next == \/ /\ go = 0 /\ go' = 1 /\ w' = w
           /\ F' \in (IF Pairs THEN Few(Worlds[w]) ELSE Restrictions(Worlds[w])) /\ S' = {} /\ H' = F'
        \/ /\ go = 1 /\ go' = 2 /\ UNCHANGED <<w, F>>
           /\ IF Pairs THEN S' = {} /\ H' \in Few(Worlds[w]) \cup {Select(F, Nodes(F) \ {n}) : n \in Nodes(F)}
              ELSE S' \in {X \in SUBSET Nodes(F) : Cardinality(X) \in 1..MaxS} /\ H' = F
Spec == Init /\ [][Next]_vars
G == Worlds[w].G

----------------------------------------------------------------------------
Within(A, B) == /\ Nodes(A) \subseteq Nodes(B) /\ A.E \subseteq B.E
                /\ \A n \in Nodes(A) : Elts(A, n) \subseteq Elts(B, n)
Same(A, B) == View(A) = View(B) /\ A.E = B.E
Fine(A) == /\ Refs(A) \subseteq G.refs /\ Calls(A) \subseteq DOMAIN G.calls
           /\ \A e \in A.E : {e[1], e[2]} \subseteq Nodes(A) /\ EdgeOk(G, A, e)

\* A path from an element: an independent account of being downstream, by explicit paths.
Follows(A, e, y) ==      \* what y at the source of e leads to at its target
  IF e[1] \in Vars(A) THEN {c \in A.fs[e[2]] : e[3] \in DOMAIN G.calls[c].ins /\ y \in G.calls[c].ins[e[3]]}
  ELSE {r \in A.vs[e[2]] : e[3] \in DOMAIN G.calls[y].outs /\ r \in G.calls[y].outs[e[3]]}
NextElts(A, x) == UNION {{<<e[2], y>> : y \in Follows(A, e, x[2])} : e \in OutE(A, x[1])}
RECURSIVE From(_, _)
From(A, X) == LET Y == X \cup UNION {NextElts(A, x) : x \in X} IN IF Y = X THEN X ELSE From(A, Y)
Pts(A, N) == {<<n, x>> : n \in N \cap Nodes(A), x \in UNION {Elts(A, m) : m \in Nodes(A)}} \cap UNION {{n} \X Elts(A, n) : n \in Nodes(A)}
PtsAll(A) == UNION {{n} \X Elts(A, n) : n \in Nodes(A)}

\* P15: restriction by reachability
LawReach ==
  \A how \in {"strong", "weak"} :
    LET d == Downstream(G, F, S, how)
        u == Upstream(G, F, S, how)
    IN /\ Within(d, F) /\ Within(u, F) /\ Fine(d) /\ Fine(u)
       /\ \A n \in S : Elts(d, n) = Elts(F, n) /\ Elts(u, n) = Elts(F, n)
       /\ Same(Downstream(G, d, S, how), d)
       /\ Same(Upstream(G, u, S, how), u)
       \* weakly: exactly the elements on a path from an element of the selection
       /\ how = "weak" => PtsAll(d) = From(Select(F, Down(F, S)), UNION {{n} \X Elts(F, n) : n \in S})
       \* strongly: every call has all its connected inputs, and every ref comes from a call or the selection
       /\ how = "strong" => \A f \in Funs(d) \ S : \A c \in d.fs[f] :
             \A e \in InE(d, f) : LIn(G, c, e[3]) \subseteq UNION {d.vs[e2[1]] : e2 \in {x \in InE(d, f) : x[3] = e[3]}}
       /\ how = "strong" => \A v \in Vars(d) \ S : \A r \in d.vs[v] : \E e \in InE(d, v) : \E c \in d.fs[e[1]] : r \in LOut(G, c, e[3])
       /\ Within(Downstream(G, F, S, "strong"), Downstream(G, F, S, "weak"))
       /\ Within(Upstream(G, F, S, "strong"), Upstream(G, F, S, "weak"))
LawDrop ==
  LET d == DropUnreachable(G, F, "forward", "strong")
      u == DropUnreachable(G, F, "back", "strong")
  IN /\ Within(d, F) /\ Same(DropUnreachable(G, d, "forward", "strong"), d)
     /\ Within(u, F) /\ Same(DropUnreachable(G, u, "back", "strong"), u)
     /\ Same(Cleanup(Cleanup(F)), Cleanup(F)) /\ Within(Cleanup(F), F)
     /\ Refs(Cleanup(F)) = Refs(F) /\ Calls(Cleanup(F)) = Calls(F)
     /\ Same(Diff2(G, F, F), Cleanup([F EXCEPT !.vs = [v \in Vars(F) |-> {}], !.fs = [f \in Funs(F) |-> {}]]))
LawSelect ==
     /\ Same(Select(F, Nodes(F)), F) /\ Fine(Select(F, S))
     /\ Same(DropNodes(DropNodes(F, S), S \cap Nodes(DropNodes(F, S))), DropNodes(F, S))
     \* P13: restriction to nodes keeps closed frames closed
     /\ Closed(G, F) => Closed(G, Select(F, S))
LawEnds ==
  LET so == SourceElts(G, F)
      si == SinkElts(G, F)
  IN \A n \in Nodes(F) : \A x \in Elts(F, n) :
       /\ x \in so[n] <=> \A y \in PtsAll(F) : <<n, x>> \notin NextElts(F, y)
       /\ x \in si[n] <=> NextElts(F, <<n, x>>) = {}
LawBetween == /\ S \subseteq BetweenLeast(F, S) /\ BetweenLeast(F, S) \subseteq BetweenMost(F, S)
              /\ (w # 3) => BetweenLeast(F, S) = BetweenMost(F, S)       \* no cycles
LawMoves ==
  \A v, u \in Vars(F) : v # u =>
    LET m == MergeInto(F, v, u)
        r == RenameVar(F, v, "new")
    IN /\ \A e \in F.E : \E e2 \in m.E : e2[3] = e[3] /\ \A k \in {1, 2} : e2[k] = e[k] \/ (e[k] = v /\ e2[k] = u)
       /\ v \notin Nodes(m) /\ Elts(m, u) = Elts(F, u) \cup Elts(F, v)
       /\ Refs(m) = Refs(F) /\ Calls(m) = Calls(F) /\ Fine(m) /\ (Closed(G, F) => Closed(G, m))
       /\ Refs(r) = Refs(F) /\ Fine(r) /\ Same(RenameVar(r, "new", v), F)
       /\ \A x \in F.vs[v] : Refs(MoveRef(F, v, u, x)) = Refs(F)
\* P16: rows of a table are histories
LawTables ==
  \A v \in Vars(F) :
    LET T == HistTable(G, F, v)
    IN /\ Len(T.rows) = Cardinality(F.vs[v])
       /\ \A x \in F.vs[v] :
            LET h == History(G, F, v, {x}) IN
            /\ x \in h[v] /\ \A n \in DOMAIN h : h[n] \subseteq Elts(F, n) /\ h[n] # {}
            /\ \A n \in DOMAIN h \cap Vars(F) : \A y \in h[n] : \A z \in PtsAll(F) : (z[1] \in Funs(F) /\ <<n, y>> \in NextElts(F, z)) => z[2] \in Get(h, z[1])
            /\ \A n \in DOMAIN h : \A y \in h[n] : <<n, y>> = <<v, x>> \/ \E z \in NextElts(F, <<n, y>>) : z[2] \in Get(h, z[1])
            \* the history of an element is the union of its makers' inputs' histories
            /\ \A n \in DOMAIN h \cap Funs(F) : \A c \in h[n] : \A e \in InE(F, n) : (LIn(G, c, e[3]) \cap F.vs[e[1]]) \subseteq Get(h, e[1])
            /\ \A n \in DOMAIN h \cap Vars(F) : \A y \in h[n] : \A m \in DOMAIN History(G, F, n, {y}) : History(G, F, n, {y})[m] \subseteq Get(h, m)
       /\ \A u \in Vars(F) : u # v =>
            LET A == Join(T, HistTable(G, F, u), "outer")
                B == Join(HistTable(G, F, u), T, "outer")
                I == Join(T, HistTable(G, F, u), "inner")
            IN /\ BagOf(A.rows) = BagOf(B.rows) /\ A.cols = B.cols
               /\ ToSet(I.rows) \subseteq ToSet(A.rows)
               \* rows are combined for a reason
               /\ \A q \in DOMAIN I.rows : \E i \in DOMAIN T.rows, j \in DOMAIN HistTable(G, F, u).rows :
                     \E c \in T.cols \cap HistTable(G, F, u).cols : T.rows[i][c] = HistTable(G, F, u).rows[j][c] /\ T.rows[i][c] # {} /\ I.rows[q][c] = T.rows[i][c]
               /\ \A j \in DOMAIN T.rows : \E q \in DOMAIN A.rows : \A c \in T.cols : T.rows[j][c] \subseteq A.rows[q][c]
LawPairs ==
  LET U == Union2(F, H)
      I == Inter2(F, H)
      D == Diff2(G, F, H)
  IN /\ Same(U, Union2(H, F)) /\ Same(I, Inter2(H, F)) /\ Within(F, U) /\ Within(H, U) /\ Within(I, F) /\ Within(I, H)
     /\ Same(Union2(F, I), F) /\ Same(Inter2(F, U), F)
     /\ Fine(U) /\ Fine(I) /\ Fine(D) /\ Within(D, F)
     /\ Closed(G, U) /\ Closed(G, I) /\ (\A e \in F.E \cap H.E : e \in I.E)
     /\ \A n \in Nodes(D) \cap Nodes(H) : Elts(D, n) \cap Elts(H, n) = {}
     \* what stays can be computed from what stays, or was not computed in F without H
     /\ \A f \in Funs(D) : \A c \in D.fs[f] : \A e \in InE(F, f) :
           LIn(G, c, e[3]) \subseteq (IF e[1] \in Vars(D) THEN D.vs[e[1]] ELSE {}) \/ \A e2 \in InE(F, f) : LIn(G, c, e2[3]) \cap Refs(D) = {}
Inv == IF go = 2 THEN IF Pairs THEN LawPairs ELSE LawReach /\ LawBetween /\ LawSelect
       ELSE IF go = 1 /\ ~Pairs THEN LawDrop /\ LawEnds /\ LawMoves /\ LawTables ELSE TRUE
=============================================================================
