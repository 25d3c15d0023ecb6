------------------------------ MODULE CFCases ------------------------------
(***************************************************************************)
(* All uses of an operation on all restrictions of a few frames: the       *)
(* worlds are frames over stored graphs as the code recorded them; every   *)
(* restriction of a frame to some of its elements is a state, and the      *)
(* operations on it are printed, to be performed on the code and judged by *)
(* CFTrace.  A slice of the restrictions and of the operations is taken.   *)
(***************************************************************************)
EXTENDS CF, Json, IOUtils
VARIABLES w, k, done
vars == <<w, k, done>>

Data == JsonDeserialize(IOEnv.CASES_FILE)
ToFun(ps) == [x \in {ps[j][1] : j \in DOMAIN ps} |-> ToSet((CHOOSE p \in ToSet(ps) : p[1] = x)[2])]
Base(x) == [vs |-> ToFun(x.vs), fs |-> ToFun(x.fs), E |-> {<<e[1], e[2], e[3]>> : e \in ToSet(x.E)}]
Worlds == Data.worlds
Frames == TLCEval([j \in DOMAIN Worlds |-> Base(Worlds[j])])
\* the elements, as places
Points == TLCEval([j \in DOMAIN Worlds |-> SetToSeq(UNION {{<<n, x>> : x \in Elts(Frames[j], n)} : n \in Nodes(Frames[j])})])
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Codes(j) == 0..(Pow(Len(Points[j])) - 1)
Bit(c, i) == (c \div Pow(i - 1)) % 2 = 1
Has(j, c, n) == {Points[j][i][2] : i \in {q \in DOMAIN Points[j] : Points[j][q][1] = n /\ Bit(c, q)}}
Sub(j, c) == [n \in Nodes(Frames[j]) |-> Has(j, c, n)]

Dirs == {"back", "forward"}
Hows == {"strong", "weak"}
Small(N, m) == {S \in SUBSET N : Cardinality(S) \in 1..m}
AsView(V) == SetToSeq({<<n, SetToSeq(V[n])>> : n \in DOMAIN V})
Kind(op) == {[op |-> op]}
Cases(op, j, V) ==
  LET F == Frames[j]
      N == Nodes(F)
      Vs == Vars(F)
  IN CASE op \in {"select", "topo"} -> {[op |-> op, nodes |-> SetToSeq(S)] : S \in SUBSET N \ {{}}}
       [] op = "drop" -> {[op |-> op, nodes |-> SetToSeq(S), inplace |-> b] : S \in Small(N, 2), b \in BOOLEAN}
       [] op \in {"downstream", "upstream", "midstream"} -> {[op |-> op, nodes |-> SetToSeq(S), how |-> h] : S \in Small(N, 3), h \in Hows}
       [] op = "unreachable" -> {[op |-> op, dir |-> d, how |-> h] : d \in Dirs, h \in Hows}
       [] op = "adj" -> {[op |-> op, node |-> p[1], elts |-> SetToSeq(p[2]), dir |-> d] :
                           p \in UNION {{<<n, S>> : S \in SUBSET V[n]} : n \in N}, d \in Dirs \cup {"both"}}
       [] op = "reach" -> {[op |-> op, init |-> AsView([n \in S |-> V[n]]), dir |-> d, how |-> h] : S \in Small(N, 2), d \in Dirs, h \in Hows}
       [] op = "history" -> {[op |-> op, node |-> p[1], elts |-> SetToSeq(p[2]), calls |-> b] :
                               p \in UNION {{<<n, S>> : S \in SUBSET V[n]} : n \in Vs}, b \in BOOLEAN}
       [] op = "historydf" -> {[op |-> op, node |-> n, calls |-> b] : n \in {m \in Vs : V[m] # {}}, b \in BOOLEAN}
       [] op = "functable" -> {[op |-> op, node |-> n] : n \in {m \in Funs(F) : V[m] # {}}}
       [] op = "df" -> {[op |-> op, nodes |-> SetToSeq(S), values |-> x, calls |-> b, join |-> h] :
                          S \in SUBSET N, x \in {"objs", "refs"}, b \in BOOLEAN, h \in {"outer", "inner"}}
       [] op = "mergeinto" -> {[op |-> op, x |-> p[1], y |-> p[2], inplace |-> b] : p \in {q \in Vs \X Vs : q[1] # q[2]}, b \in BOOLEAN}
       [] op = "rename" -> {[op |-> op, x |-> n, y |-> m, inplace |-> b] : n \in Vs, m \in Vs \cup {"new"}, b \in BOOLEAN}
       [] op = "move" -> {[op |-> op, x |-> p[1], y |-> p[2], r |-> p[3], inplace |-> b] :
                            p \in UNION {{<<n, m, r>> : m \in Vs \ {n}, r \in V[n]} : n \in Vs}, b \in BOOLEAN}
       [] op = "isin" -> {[op |-> op, elts |-> SetToSeq(S)] : S \in Small(UNION {V[n] : n \in Vs}, 2)}
       [] op = "expand" -> IF \E f \in Funs(F) : V[f] = {} THEN {}
                           ELSE {[op |-> op, dir |-> d, skip |-> s, rec |-> r, nodes |-> SetToSeq(S)] :
                                   d \in Dirs, s \in BOOLEAN, r \in {FALSE}, S \in SUBSET Vs}
                                \cup {[op |-> op, dir |-> d, skip |-> s, rec |-> TRUE, nodes |-> <<>>] : d \in Dirs, s \in BOOLEAN}
       [] op = "expandall" -> IF \E f \in Funs(F) : V[f] = {} THEN {} ELSE {[op |-> op, skip |-> s] : s \in BOOLEAN}
       [] op \in {"union", "inter", "diff"} ->
            {[op |-> op, view |-> AsView(Sub(j, c)), drop |-> SetToSeq(S)] : c \in {x \in Codes(j) : x % 17 = k % 17}, S \in {{}} \cup {{n} : n \in N}}
       [] OTHER -> {[op |-> op]}

Init == /\ w \in DOMAIN Worlds /\ done = FALSE
        /\ k \in {c \in Codes(w) : c % Data.vmod = (Data.seed + w) % Data.vmod}
Taken(op) == LET s == SetToSeq(Cases(op, w, Sub(w, k)))
                 m == Data.omod[op]
             IN [q \in 1..Cardinality({i \in DOMAIN s : (i + k \div Data.vmod + Data.seed) % m = 0}) |->
                   s[(CHOOSE i \in 1..m : (i + k \div Data.vmod + Data.seed) % m = 0) + (q - 1) * m]]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, k>>
        /\ PrintT("@@C " \o ToJson([w |-> w, k |-> k, view |-> AsView(Sub(w, k)),
                                    ops |-> FoldLeft(LAMBDA acc, op : acc \o Taken(op), <<>>, Data.kinds)]))
Spec == Init /\ [][Next]_vars
=============================================================================
