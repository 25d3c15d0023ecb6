--------------------------- MODULE VersionsTrace ---------------------------
(***************************************************************************)
(* Checks recorded histories of changing code against Versions.            *)
(***************************************************************************)
EXTENDS Versions, Json, IOUtils

VARIABLES tr, i, st, W, ids, done, n
vars == <<tr, i, st, W, ids, done, n>>

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
ToSet(q) == {q[j] : j \in DOMAIN q}
ToFun(ps) == [x \in {ps[j][1] : j \in DOMAIN ps} |-> (CHOOSE p \in ToSet(ps) : p[1] = x)[2]]
Pairs(q) == {<<p[1], p[2]>> : p \in ToSet(q)}
Bad(cond, clause, exp, got) == IF cond THEN <<>> ELSE <<<<clause, ToString(exp), ToString(got)>>>>

----------------------------------------------------------------------------
(* What is stored: calls [op, x, val, in, sem, cont, sv, cv] (in is the    *)
(* index of the call that made the argument, 0 for a constant, -1 if that  *)
(* call is not there), versions and code histories.                        *)
RECURSIVE Matches(_, _, _, _)
Matches(S, calls, j, r) ==
  LET c == calls[j] IN
  /\ c.op = r.op /\ c.x = r.x /\ c.val = r.val /\ Pairs(c.sem) = r.sem /\ Pairs(c.cont) = r.cont
  /\ IF c.in = 0 THEN S.hists[r.h].op = ""
     ELSE IF c.in = -1 THEN S.hists[r.h].op # "" /\ \A q \in S.recs : q.out # r.h
     ELSE \E q \in S.recs : q.out = r.h /\ Matches(S, calls, c.in, q)
RecOf(S, calls, j) == CHOOSE r \in S.recs : Matches(S, calls, j, r)
CallsAgree(S, calls) ==
  /\ \A j \in DOMAIN calls : \E r \in S.recs : Matches(S, calls, j, r)
  /\ \A r \in S.recs : \E j \in DOMAIN calls : Matches(S, calls, j, r)
  /\ Len(calls) = Cardinality(S.recs)
\* calls in short, to report
Short(S) == {[op |-> r.op, x |-> r.x, val |-> r.val, cont |-> r.cont] : r \in S.recs}

SnapFails(S, o) ==
  IF ~o.has THEN <<>> ELSE
  LET dag == ToFun([j \in DOMAIN o.dags |-> <<o.dags[j].c, ToFun(o.dags[j].commits)>>])
      head == ToFun([j \in DOMAIN o.dags |-> <<o.dags[j].c, o.dags[j].head>>])
      vers == {[op |-> v.op, sem |-> Pairs(v.sem), cont |-> Pairs(v.cont)] : v \in ToSet(o.vers)}
  IN Bad(DOMAIN dag = DOMAIN S.dag, "components", DOMAIN S.dag, DOMAIN dag)
     \o Bad(DOMAIN dag = DOMAIN S.dag => dag = S.dag, "history", S.dag, dag)
     \o Bad(DOMAIN dag = DOMAIN S.dag => head = S.head, "head", S.head, head)
     \o Bad(vers = S.vers /\ Len(o.vers) = Cardinality(S.vers), "versions", S.vers, vers)
     \o Bad(CallsAgree(S, o.calls), "calls", Short(S), [j \in DOMAIN o.calls |-> [op |-> o.calls[j].op, x |-> o.calls[j].x, val |-> o.calls[j].val, cont |-> o.calls[j].cont]])
     \o Bad(\A d \in ToSet(o.dags) : \A c \in DOMAIN ToFun(d.commits) : c \in ToSet(d.texts), "texts", "", o.dags)
     \o Bad(\A v \in ToSet(o.vers) : \A p \in Pairs(v.sem) : p[1] \in ToSet(v.shown), "shown", "", o.vers)

\* identifiers of versions: <<kind, id, what it identifies>>
NewIds(o) == IF ~o.has THEN {} ELSE
  {<<"s", c.sv, Pairs(c.sem)>> : c \in ToSet(o.calls)} \cup {<<"c", c.cv, Pairs(c.cont)>> : c \in ToSet(o.calls)}
  \cup {<<"s", v.sv, Pairs(v.sem)>> : v \in ToSet(o.vers)} \cup {<<"c", v.cv, Pairs(v.cont)>> : v \in ToSet(o.vers)}
IdsOk(I) == \A a \in I : \A b \in I : a[1] = b[1] => ((a[2] = b[2]) <=> (a[3] = b[3]))

----------------------------------------------------------------------------
(* One event: [S, val, exc, ex, asked, out] as it should be.               *)
Out(S) == [S |-> S, acc |-> 0, exc |-> "", ex |-> <<>>, asked |-> 0, out |-> 0]
StepCall(S, e) ==
  LET h == IF e.arg = 0 THEN HistOf(WithHist(S, ConstHist(e.x)), ConstHist(e.x)) ELSE done[e.arg].out
      x == IF e.arg = 0 THEN e.x ELSE done[e.arg].acc
      T == IF e.arg = 0 THEN WithHist(S, ConstHist(x)) ELSE S
      R == IF e.mode = "noop" THEN Fun(W, S, "noop", e.op, x) ELSE OpCall(W, T, e.op, x, h)
  IN [S |-> R.S, acc |-> IF R.exc # "" THEN 0 ELSE R.acc, exc |-> R.exc, ex |-> R.ex, asked |-> 0,
      out |-> IF R.exc # "" \/ e.mode = "noop" THEN 0 ELSE R.out]
Step(S, e) ==
  CASE e.ev = "edit" -> Out([S EXCEPT !.code = ToFun(e.code) @@ @])
    [] e.ev = "enter" -> IF Refused(Leave(S), e.ans) THEN [Out(S) EXCEPT !.exc = "ValueError", !.asked = 1]
                         ELSE [Out(Sync(Leave(S), e.ans)) EXCEPT !.asked = Cardinality(Changed(Leave(S)))]
    [] e.ev = "sync" -> IF e.op \notin DOMAIN S.dag THEN [Out(S) EXCEPT !.exc = "KeyError"]
                        ELSE Out(SyncOf(S, {e.op}, e.ans))
    [] e.ev = "call" -> StepCall(S, e)
    [] e.ev = "assign" -> Out([S EXCEPT !.rt = ToFun(e.code) @@ @])
    [] e.ev = "exit" -> Out(IF e.outer THEN Leave(S) ELSE S)
    [] e.ev = "dropversion" -> Out(DropVersion(S, Pairs(e.sem)))
    [] e.ev = "dropcall" -> Out(DropRecs(S, {RecOf(S, e.calls, e.k)}, e.deps))
    [] OTHER -> Out(S)

Fails(R, e) ==
  LET a == Bad(e.exc = R.exc, "exc", R.exc, e.exc)
           \o Bad(e.ex = R.ex, "executed", R.ex, e.ex)
           \o Bad(e.asked = R.asked, "asked", R.asked, e.asked)
           \o Bad(e.exc = "" /\ e.ev = "call" => e.val = R.acc, "value", R.acc, e.val)
  IN a \o (IF a = <<>> THEN SnapFails(R.S, e.o) \o Bad(IdsOk(ids \cup NewIds(e.o)), "ids", "", "") ELSE <<>>)

TInit == /\ tr \in 1..Len(Traces)
         /\ i = 0
         /\ st = Init0(ToFun(Traces[tr].code))
         /\ W = [body |-> ToFun(Traces[tr].body), value |-> ToFun(Traces[tr].value), ops |-> ToSet(Traces[tr].ops), tg |-> Traces[tr].tg]
         /\ ids = {}
         /\ done = <<>>
         /\ n = EmptyFun
Count(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1)
TNext ==
  /\ i < Len(Traces[tr].events)
  /\ LET e == Traces[tr].events[i + 1]
         R == TLCEval(Step(st, e))
         fails == TLCEval(Fails(R, e))
     IN /\ IF fails = <<>> THEN TRUE
           ELSE PrintT("@@FAIL " \o ToJson([trace |-> tr, event |-> i + 1, ev |-> e.ev, fails |-> fails]))
        /\ st' = R.S
        /\ ids' = ids \cup NewIds(e.o)
        /\ done' = Append(done, [acc |-> R.acc, out |-> R.out])
        /\ n' = Count(n, IF e.ev # "call" THEN e.ev ELSE IF R.exc # "" THEN "call_raised" ELSE IF R.ex # <<>> THEN "call_run" ELSE "call_served")
        /\ i' = IF fails = <<>> THEN i + 1 ELSE Len(Traces[tr].events)
  /\ IF i' = Len(Traces[tr].events) THEN PrintT("@@DONE " \o ToJson([t |-> tr, n |-> n'])) ELSE TRUE
  /\ UNCHANGED <<tr, W>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
