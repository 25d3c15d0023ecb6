------------------------------ MODULE CFTrace ------------------------------
(***************************************************************************)
(* Checks recorded uses of computation frames against CF.                  *)
(*                                                                         *)
(* A trace has the graph stored in a database, read independently of the   *)
(* code, and a sequence of operations on frames.  For each operation the   *)
(* trace has its operands and result, every frame made so far that is no   *)
(* longer what it was, and whether the database is still what it was.      *)
(* Results of operations that are functions are compared with what CF      *)
(* says; others are tested with CF's predicates.                           *)
(***************************************************************************)
EXTENDS CF, Json, IOUtils

VARIABLES tr, i, fr, n, g
vars == <<tr, i, fr, n, g>>

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces

----------------------------------------------------------------------------
(* From JSON: pairs <<x, sequence>> to functions.                          *)
ToFun(ps) == [x \in {ps[j][1] : j \in DOMAIN ps} |-> ToSet((CHOOSE p \in ToSet(ps) : p[1] = x)[2])]
ToFrame(x) == [vs |-> ToFun(x.vs), fs |-> ToFun(x.fs), E |-> {<<e[1], e[2], e[3]>> : e \in ToSet(x.E)}]
ToDerived(x) == [refs |-> ToSet(x.refs), calls |-> ToSet(x.calls), ri |-> ToFun(x.ri), ci |-> ToFun(x.ci),
                 cr |-> {<<p[1], p[2]>> : p \in ToSet(x.cr)}, co |-> UNION {{<<p[1], c>> : c \in ToSet(p[2])} : p \in ToSet(x.co)},
                 dual |-> x.dual, keys |-> x.keys]
ToGraph(x) ==
  [calls |-> [c \in {y.id : y \in ToSet(x.calls)} |->
      LET y == CHOOSE z \in ToSet(x.calls) : z.id = c IN [op |-> y.op, ins |-> ToFun(y.ins), outs |-> ToFun(y.outs), names |-> y.names]],
   refs |-> ToSet(x.refs),
   val |-> [r \in {p[1] : p \in ToSet(x.vals)} |-> (CHOOSE p \in ToSet(x.vals) : p[1] = r)[2]],
   num |-> [r \in {p[1] : p \in ToSet(x.nums)} |-> (CHOOSE p \in ToSet(x.nums) : p[1] = r)[2]],
   cid |-> [r \in {p[1] : p \in ToSet(x.cids)} |-> (CHOOSE p \in ToSet(x.cids) : p[1] = r)[2]]]

Bad(cond, clause, exp, got) == IF cond THEN <<>> ELSE <<<<clause, exp, got>>>>
Named(cs) == [j \in DOMAIN cs |-> <<cs[j], "", "">>]

----------------------------------------------------------------------------
(* Expected results.                                                       *)
\* frames after the event: the changed ones replaced
Replaced(frs, e) ==
  [j \in DOMAIN frs |->
     LET ch == {c \in ToSet(e.changed) : c[1] = j} IN IF ch = {} THEN frs[j] ELSE ToFrame((CHOOSE c \in ch : TRUE)[2])]

UnionAll(fs) == FoldLeft(LAMBDA acc, f : Union2(acc, f), fs[1], Tail(fs))
\* every partial union is formed, and has to be consistent
NamesClash(H) == Vars(H) \cap Funs(H) # {}
UnionRaises(G, fs) ==
  LET bad == {j \in 2..Len(fs) : LET H == UnionAll(SubSeq(fs, 1, j)) IN NamesClash(H) \/ ~Closed(G, H)}
  IN IF bad = {} THEN "" ELSE IF NamesClash(UnionAll(SubSeq(fs, 1, Min(bad)))) THEN "ValueError" ELSE "AssertionError"
InterAll(fs) == FoldLeft(LAMBDA acc, f : Inter2(acc, f), fs[1], Tail(fs))

Functional == {"copy", "select", "subsets", "downstream", "upstream", "drop", "rename", "cleanup", "move", "mergeinto",
               "union", "inter", "diff", "isin", "less", "unreachable", "from_vars"}
Exp(G, A, e) ==
  LET F == A[1] IN
  CASE e.op = "copy" -> F
    [] e.op = "select" -> Select(F, ToSet(e.nodes))
    [] e.op = "subsets" -> Subsets(F, ToFun(e.view))
    [] e.op = "downstream" -> Downstream(G, F, ToSet(e.nodes), e.how)
    [] e.op = "upstream" -> Upstream(G, F, ToSet(e.nodes), e.how)
    [] e.op = "drop" -> DropNodes(F, ToSet(e.nodes))
    [] e.op = "rename" -> RenameVar(F, e.x, e.y)
    [] e.op = "cleanup" -> Cleanup(F)
    [] e.op = "move" -> MoveRef(F, e.x, e.y, e.r)
    [] e.op = "mergeinto" -> MergeInto(F, e.x, e.y)
    [] e.op = "union" -> UnionAll(A)
    [] e.op = "inter" -> InterAll(A)
    [] e.op = "diff" -> Diff2(G, A[1], A[2])
    [] e.op = "isin" -> WithCalls(G, F, IF e.by = "val" THEN {r \in G.refs : G.val[r] \in ToSet(e.values)}
                                        ELSE IF e.by = "hid" THEN ToSet(e.values)
                                        ELSE {r \in G.refs : G.cid[r] \in ToSet(e.values)})
    [] e.op = "less" -> WithCalls(G, F, {r \in DOMAIN G.num : G.num[r] < e.than})
    [] e.op = "unreachable" -> DropUnreachable(G, F, e.dir, e.how)
    [] e.op = "from_vars" -> FromVars(ToFun(e.view))

\* the exception the operation is expected to raise
ExpExc(G, A, e) ==
  CASE e.op = "union" -> UnionRaises(G, A)
    [] e.op \in {"select", "drop"} -> IF ToSet(e.nodes) \subseteq Nodes(A[1]) THEN "" ELSE "ValueError"
    [] e.op = "rename" -> IF e.x \in Vars(A[1]) /\ (e.y = e.x \/ e.y \notin Nodes(A[1])) THEN "" ELSE "ValueError"
    [] e.op = "move" -> IF e.r \in A[1].vs[e.x] THEN "" ELSE "ValueError"
    [] OTHER -> ""

Diffs(E, H) ==
     Bad(E.vs = H.vs, "variables", E.vs, H.vs) \o Bad(E.fs = H.fs, "functions", E.fs, H.fs) \o Bad(E.E = H.E, "edges", E.E, H.E)

\* operations that keep frames consistent
Keeping == {"copy", "select", "drop", "rename", "cleanup", "mergeinto", "mergevars", "union", "inter", "from_vars", "from_refs", "from_op", "expand", "expandall"}

FrameFails(G, A, e, H) ==
  LET F == A[1]
      op == IF e.op \in Functional THEN Diffs(Exp(G, A, e), H)
            ELSE Named(CASE e.op = "from_op" -> FromOpFails(G, e.fun, H)
                         [] e.op = "from_refs" -> FromRefsFails(ToSet(e.refs), H)
                         [] e.op = "midstream" ->
                              IF ~BetweenOk(F, ToSet(e.nodes), Nodes(H)) THEN <<"midstream.nodes">>
                              ELSE LET M == Midstream(G, F, ToSet(e.nodes), Nodes(H), e.how)
                                   IN IF M # Plain(H) THEN <<"midstream.elements">> ELSE <<>>
                         [] e.op = "mergevars" -> MergeVarsFails(F, H)
                         [] e.op = "expand" /\ ~e.rec -> RoundFails(G, F, H, e.dir, IF e.allvars THEN Vars(F) ELSE ToSet(e.nodes), e.skip, e.reuse)
                         [] e.op = "expand" /\ e.rec -> FullFails(G, F, H, {e.dir}, e.skip, e.reuse)
                         [] e.op = "expandall" -> FullFails(G, F, H, {"back", "forward"}, e.skip, e.reuse))
      closed == IF e.op \in Keeping /\ (\A j \in DOMAIN A : Closed(G, A[j])) THEN Bad(Closed(G, H), "not-closed", "", "") ELSE <<>>
      twin == IF "twin" \in DOMAIN e THEN Bad(Plain(ToFrame(e.twin)) = Plain(H), "order-dependent", Plain(H), Plain(ToFrame(e.twin))) ELSE <<>>
  IN op \o closed \o twin

----------------------------------------------------------------------------
(* Observations that are not frames.                                       *)
NonEmpty(V) == [x \in {y \in DOMAIN V : V[y] # {}} |-> V[x]]
ViewFails(G, F, e) ==
  LET got == ToFun(e.view)
      exp == CASE e.op = "sourceelts" -> SourceElts(G, F)
               [] e.op = "sinkelts" -> SinkElts(G, F)
               [] e.op = "adj" -> AdjElts(G, F, e.node, ToSet(e.elts), e.dir)
               [] e.op = "reach" -> Reach(G, F, ToFun(e.init), e.dir, e.how)
               [] e.op = "history" -> LET H == History(G, F, e.node, ToSet(e.elts))
                                      IN IF e.calls THEN H ELSE [x \in DOMAIN H \cap Vars(F) |-> H[x]]
               [] e.op = "views" -> View(F)
  IN Bad(NonEmpty(got) = NonEmpty(exp), e.op, NonEmpty(exp), NonEmpty(got))
     \o Bad(e.op \in {"sourceelts", "sinkelts", "views"} => DOMAIN got = DOMAIN exp, e.op, DOMAIN exp, DOMAIN got)

\* a cell of an expected table, as it is shown
Cell(G, F, S, col, e) ==
  LET objs == e.values = "objs" /\ col \in Vars(F) /\ col \notin ToSet(e.lazy)
      s == SetToSeq(S)
  IN BagOf(IF objs THEN [j \in DOMAIN s |-> G.val[s[j]]] ELSE s)
Shown(G, F, T, e) ==
  BagOf(TLCEval([j \in DOMAIN T.rows |-> [c \in T.cols |-> Cell(G, F, T.rows[j][c], c, e)]]))
Observed(e) ==
  BagOf(TLCEval([j \in DOMAIN e.rows |-> [c \in ToSet(e.cols) |-> BagOf((CHOOSE p \in ToSet(e.rows[j]) : p[1] = c)[2])]]))
SameTable(G, F, T, e) == \/ e.rows = <<>> /\ T.rows = <<>>
                         \/ e.cols = <<>> /\ T.cols = {}
                         \/ T.cols = ToSet(e.cols) /\ Shown(G, F, T, e) = Observed(e)
Wanted(F, e) == IF e.calls THEN Nodes(F) ELSE Vars(F)

\* rows of function tables: column -> {ref}, inputs and outputs by name
FuncRow(G, F, c) ==
  LET names == G.calls[c].names
      cols == {names[j][1] : j \in DOMAIN names}
  IN [x \in cols |-> {names[j][2] : j \in {k \in DOMAIN names : names[k][1] = x}} \cap Refs(F)]
FuncTable(G, F, f) ==
  LET cs == SetToSeq(F.fs[f])
      cols == UNION {DOMAIN FuncRow(G, F, c) : c \in F.fs[f]}
  IN [cols |-> cols, rows |-> [j \in DOMAIN cs |-> LET r == FuncRow(G, F, cs[j]) IN [x \in cols |-> Get(r, x)]]]

TableFails(G, F, e) ==
  CASE e.op = "functable" -> Bad(SameTable(G, F, FuncTable(G, F, e.node), e), "functable", FuncTable(G, F, e.node), e.rows)
    [] e.op = "historydf" ->
         LET T == Project(HistTable(G, F, e.node), Wanted(F, e))
         IN Bad(SameTable(G, F, T, e), "historydf", T, e.rows) \o Bad(TopoOk(F, e.cols), "columns", "", e.cols)
    [] e.op = "df" /\ Cardinality(ToSet(e.nodes)) = 1 ->
         LET node == e.nodes[1]
             s == SetToSeq(Elts(F, node))
             T == Project([cols |-> {node}, rows |-> [j \in DOMAIN s |-> node :> {s[j]}]], Wanted(F, e))
         IN Bad(SameTable(G, F, T, e), "df.one", T, e.rows)
    [] e.op = "df" ->
         LET N == ToSet(e.mid)
             nodes == IF e.nodes = <<>> THEN Nodes(F) ELSE ToSet(e.nodes)
             M == Midstream(G, F, nodes, N, "strong")
             fin == Finals(G, M)
             tables == {Project(Project(JointTable(G, M, o, e.join), Wanted(F, e)), nodes) : o \in Orders(M, fin)}
         IN IF ~BetweenOk(F, nodes, N) THEN Named(<<"df.nodes">>)
            ELSE IF Calls(M) # {} /\ fin = {} THEN <<>>
            ELSE IF fin = {} THEN Bad(e.rows = <<>>, "df.rows", <<>>, e.rows)
            ELSE IF Cardinality(fin) > 4 THEN <<>>
            ELSE Bad(\E T \in tables : SameTable(G, F, T, e), "df", CHOOSE T \in tables : TRUE, e.rows)
                 \o Bad(TopoOk(F, e.cols), "columns", "", e.cols)
    [] e.op = "topo" -> Bad(ToSet(e.order) = ToSet(e.nodes) /\ TopoOk(F, e.order), "order", e.nodes, e.order)

----------------------------------------------------------------------------
Gone(G, F) == LET C == Calls(F) IN C \cup AncFix(G, Consumers(G, UNION {Outs(G, c) : c \in C}), {"forward"})

Fails(G, frs, e) ==
  LET A == [j \in DOMAIN e.a |-> frs[e.a[j]]]
      after == Replaced(frs, e)
      touched == Bad(\A c \in ToSet(e.changed) : e.inplace /\ c[1] = e.a[1], "operand", "", [j \in DOMAIN e.changed |-> e.changed[j][1]])
      db == IF e.op = "delete" THEN Bad(ToSet(e.left) = DOMAIN G.calls \ Gone(G, A[1]), "delete", DOMAIN G.calls \ Gone(G, A[1]), e.left)
            ELSE Bad(e.db, "database", "", "")
      exc == Bad(e.exc = ExpExc(G, A, e), "exc", ExpExc(G, A, e), e.exc)
      dumps == (IF e.hasres THEN <<e.res>> ELSE <<>>) \o [j \in DOMAIN e.changed |-> e.changed[j][2]]
      wf == FoldLeft(LAMBDA acc, d : acc \o Named(WfFails(G, ToFrame(d), ToDerived(d))), <<>>, dumps)
      ret == Bad(e.inplace => ~e.hasres, "inplace-result", "", "")
      H == IF e.inplace THEN after[e.a[1]] ELSE ToFrame(e.res)
      op == IF exc # <<>> \/ e.exc # "" \/ wf # <<>> \/ touched # <<>> THEN <<>>
            ELSE IF e.kind = "frame" THEN (IF e.inplace \/ e.hasres THEN FrameFails(G, A, e, H) ELSE Bad(FALSE, "no-result", "", ""))
            ELSE IF e.kind = "view" THEN ViewFails(G, A[1], e)
            ELSE IF e.kind = "table" THEN TableFails(G, A[1], e)
            ELSE <<>>
  IN exc \o touched \o db \o wf \o ret \o op

TInit == /\ tr \in 1..Len(Traces)
         /\ i = 0
         /\ fr = <<>>
         /\ n = EmptyFun
         /\ g = ToGraph(Traces[tr].g)
Count(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1)
TNext ==
  /\ i < Len(Traces[tr].events)
  /\ LET e == Traces[tr].events[i + 1]
         fails == Fails(g, fr, e)
         nxt == Replaced(fr, e)
     IN /\ IF fails = <<>> THEN TRUE
           ELSE PrintT("@@FAIL " \o ToJson([trace |-> tr, event |-> i + 1, ev |-> e.op, fails |-> fails]))
        /\ fr' = LET all == IF e.hasres THEN Append(nxt, ToFrame(e.res)) ELSE nxt
                  IN IF "forget" \in DOMAIN e THEN SubSeq(all, 1, Min({e.forget, Len(all)})) ELSE all
        /\ n' = Count(n, e.op)
        \* nothing is judged after the first failure
        /\ i' = IF fails = <<>> THEN i + 1 ELSE Len(Traces[tr].events)
  /\ IF i' = Len(Traces[tr].events) THEN PrintT("@@DONE " \o ToJson([t |-> tr, n |-> n'])) ELSE TRUE
  /\ UNCHANGED <<tr, g>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
