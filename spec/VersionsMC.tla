----------------------------- MODULE VersionsMC -----------------------------
(***************************************************************************)
(* All histories of a small program in Versions, to a bounded number of    *)
(* events.  TLC checks that the specification has the properties P10, P11  *)
(* and P12 on them; with print set, one history per transition is printed, *)
(* to be performed on the real storage (harness/versions_replay.py).       *)
(***************************************************************************)
EXTENDS Versions, Json, IOUtils

VARIABLES st,      \* the state of Versions
          pure,   \* were all changes called relevant?
          ctx,    \* the mode of the open context, "" if there is none
          k,      \* events since the context was opened / closed
          outs,   \* results the program holds: [acc, out]
          path

Data == JsonDeserialize(IOEnv.MC_FILE)
ToSet(q) == {q[j] : j \in DOMAIN q}
ToFun(ps) == [x \in {ps[j][1] : j \in DOMAIN ps} |-> (CHOOSE p \in ToSet(ps) : p[1] = x)[2]]
W == [body |-> ToFun(Data.body), value |-> ToFun(Data.value), ops |-> ToSet(Data.ops), tg |-> Data.tg]
Kinds == ToSet(Data.kinds)
Editable == ToFun(Data.editable)       \* component -> its contents (as a sequence)
Kin == ToFun(Data.kin)                 \* content -> contents that differ in nothing that matters
\* the components that are global variables
Vars == {c \in DOMAIN Editable : \A t \in ToSet(Editable[c]) : t \in DOMAIN W.value}
Copies(c) == {d \in DOMAIN st.code : d # c /\ \E p \in ToSet(Data.alias) : p[1] = d /\ p[2] = c}

Compatible(T) == \A c \in DOMAIN T.dag : T.head[c] \in DOMAIN Kin => Kin[T.head[c]] = Kin[T.code[c]]

Events ==
  IF ctx = "" THEN
       (IF k = 0 /\ path # <<>> THEN
             {[ev |-> "edit", c |-> c, to |-> to] : c \in DOMAIN Editable, to \in UNION {ToSet(Editable[d]) : d \in DOMAIN Editable}}
        \cup {[ev |-> "reopen"]}
        \cup {[ev |-> "dropversion", sem |-> v.sem] : v \in st.vers}
        \cup {[ev |-> "dropcall", rec |-> r, deps |-> d] : r \in st.recs, d \in BOOLEAN}
        \cup {[ev |-> "sync", op |-> c, ans |-> a] : c \in DOMAIN Editable \cap DOMAIN st.dag, a \in {"y", "n"}}
        ELSE {})
    \cup {[ev |-> "enter", ans |-> a, mode |-> m] : a \in {"y", "n", "a"}, m \in {"run", "noop"}}
  ELSE (IF k < Data.calls THEN
             {[ev |-> "call", op |-> c, arg |-> 0, x |-> x, mode |-> ctx] : c \in W.ops, x \in ToSet(Data.xs)}
        \cup {[ev |-> "call", op |-> c, arg |-> a, x |-> 0, mode |-> ctx] : c \in W.ops, a \in DOMAIN outs}
        ELSE {})
    \cup {[ev |-> "assign", c |-> c, to |-> to] : c \in Vars, to \in UNION {ToSet(Editable[d]) : d \in DOMAIN Editable}}
    \cup (IF k > 0 THEN {[ev |-> "exit"]} ELSE {})
Enabled1 ==
  {e \in Events : /\ (IF e.ev = "enter" THEN e.ev \o "-" \o e.ans \o (IF e.mode = "noop" THEN "-noop" ELSE "") ELSE e.ev) \in Kinds \cup {"enter-y", "call", "exit"}
                  /\ e.ev \in {"edit", "assign"} => e.to \in ToSet(Editable[e.c]) /\ Now(st, e.c) # e.to
                  /\ (e.ev = "enter" /\ e.ans # "y") => Changed(st) # {}
                  /\ (e.ev = "enter" /\ e.ans = "n") => Compatible(st)
                  /\ e.ev = "sync" => st.head[e.op] # st.code[e.op] /\ (e.ans = "n" => Kin[st.head[e.op]] = Kin[st.code[e.op]])}

Call(T, e) ==
  LET x == IF e.arg = 0 THEN e.x ELSE outs[e.arg].acc
      h == IF e.arg = 0 THEN HistOf(WithHist(T, ConstHist(x)), ConstHist(x)) ELSE outs[e.arg].out
      T1 == IF e.arg = 0 THEN WithHist(T, ConstHist(x)) ELSE T
  IN IF e.mode = "noop" THEN [Fun(W, T, "noop", e.op, x) EXCEPT !.S = T] @@ [out |-> 0] ELSE OpCall(W, T1, e.op, x, h)

----------------------------------------------------------------------------
(* Properties of states.                                                    *)
Plain(T, op, x) == Fun(W, T, "noop", op, x)
Entry(T) == [T EXCEPT !.rt = EmptyFun]
TypeOk == \A c \in DOMAIN st.dag : /\ st.head[c] \in DOMAIN st.dag[c]
                                  /\ \A t \in DOMAIN st.dag[c] : st.dag[c][t] \in DOMAIN st.dag[c] /\ st.dag[c][st.dag[c][t]] = st.dag[c][t]
\* P10, P12: no stale result is ever served
Sound == pure => \A r \in st.recs : Valid(st, r) => LET q == Plain(Entry(st), r.op, r.x) IN q.exc = "" /\ q.acc = r.val
\* what a version says was used is what running the code used
Exact == \A r \in st.recs : \A p \in r.cont : p[1] \in DOMAIN st.dag /\ p[2] \in DOMAIN st.dag[p[1]]
\* P10: with the code back as it was, the call is served again
Restored == \A r \in st.recs : (\A p \in r.cont : st.code[p[1]] = p[2]) => Valid(st, r)
\* one answer
Single == \A r \in st.recs, q \in st.recs : (r.op = q.op /\ r.h = q.h /\ Valid(st, r) /\ Valid(st, q)) => r.sem = q.sem /\ r.out = q.out
\* P11: every recorded call belongs to a recorded version
Versioned == \A r \in st.recs : \E v \in st.vers : v.op = r.op /\ v.sem = r.sem /\ v.cont = r.cont
Histories == \A r \in st.recs : st.hists[r.out].val = r.val /\ st.hists[r.out].op = r.op
Inv == TypeOk /\ Sound /\ Exact /\ Restored /\ Single /\ Versioned /\ Histories

----------------------------------------------------------------------------
(* Properties of transitions.                                               *)
LawCall(e, R) ==
  LET x == IF e.arg = 0 THEN e.x ELSE outs[e.arg].acc
      q == Plain(st, e.op, x)
      again == Call(R.S, e)
      old == Plain(Entry(R.S), e.op, x)
      calm == pure /\ st.rt = EmptyFun
  IN /\ calm => (R.exc = q.exc /\ (R.exc = "" => R.acc = q.acc))
     \* variables were assigned: no value but that of the code as it was when it was looked at is recorded
     /\ (pure /\ e.mode = "run") => \/ R.exc = "" /\ old.exc = "" /\ R.acc = old.acc
                                    \/ R.exc = "Boom" \/ (R.exc = "ValueError" /\ Moved(R.S, R.rd))
     /\ e.mode = "noop" => R.exc = q.exc /\ R.acc = q.acc
     /\ (e.mode = "run" /\ R.exc = "") => again.ex = <<>> /\ again.acc = R.acc /\ again.out = R.out
     /\ e.mode = "noop" => R.S.recs = st.recs /\ R.S.dag = st.dag
     /\ R.ex # <<>> => R.ex[1] = e.op
     /\ st.recs \subseteq R.S.recs
     /\ (R.ex = <<>> /\ R.S.recs # st.recs) => \E r \in st.recs : r.op = e.op /\ r.x = x /\ Valid(st, r)
     \* the real dependencies: a component that is not listed does not matter
     /\ (e.mode = "run" /\ R.exc = "" /\ calm /\ R.ex # <<>>) =>
          \A c \in DOMAIN Editable : \A to \in ToSet(Editable[c]) :
             (\A p \in R.used : p[1] # c /\ p[1] \notin Copies(c)) =>
                LET T == [st EXCEPT !.code = [d \in DOMAIN @ |-> IF d = c \/ d \in Copies(c) THEN to ELSE @[d]]]
                IN Plain(T, e.op, x).acc = R.acc
LawEnter(e, T) ==
  /\ Refused(st, e.ans) => T = st
  /\ ~Refused(st, e.ans) => Changed(T) = {} /\ T.recs = st.recs /\ T.vers = st.vers
  \* P11: contents and their classes never change, history only grows
  /\ \A c \in DOMAIN st.dag : \A t \in DOMAIN st.dag[c] : T.dag[c][t] = st.dag[c][t]
  /\ DOMAIN T.dag = DOMAIN st.dag
  /\ (e.ans = "n" /\ ~Refused(st, e.ans)) =>    \* all that was valid for the code before is valid for the code now
       \A r \in st.recs : (\A p \in r.sem : st.dag[p[1]][st.head[p[1]]] = p[2] /\ (st.code[p[1]] \notin DOMAIN st.dag[p[1]] \/ st.dag[p[1]][st.code[p[1]]] = p[2])) => Valid(T, r)

----------------------------------------------------------------------------
MInit == /\ st = Init0(ToFun(Data.code)) /\ pure = TRUE /\ ctx = "" /\ k = 0 /\ outs = <<>> /\ path = <<>>
Do(e) ==
  CASE e.ev = "edit" ->
        /\ st' = [st EXCEPT !.code = [c \in DOMAIN @ |-> IF c = e.c \/ c \in Copies(e.c) THEN e.to ELSE @[c]]]
        /\ k' = 1 /\ UNCHANGED <<pure, ctx, outs>>
    [] e.ev = "assign" ->
        /\ st' = [st EXCEPT !.rt = [c \in {e.c} \cup Copies(e.c) |-> e.to] @@ @]
        /\ UNCHANGED <<k, pure, ctx, outs>>
    [] e.ev = "enter" ->
        LET T == IF Refused(st, e.ans) THEN st ELSE Sync(st, e.ans) IN
        /\ st' = T /\ ctx' = (IF Refused(st, e.ans) THEN "" ELSE e.mode) /\ k' = (IF Refused(st, e.ans) THEN 1 ELSE 0)
        /\ pure' = (pure /\ (e.ans = "n" => Changed(st) = {}))
        /\ Assert(LawEnter(e, T), <<"law", path, e>>)
        /\ UNCHANGED outs
    [] e.ev = "sync" ->
        /\ st' = SyncOf(st, {e.op}, e.ans) /\ k' = 1 /\ pure' = (pure /\ e.ans = "y") /\ UNCHANGED <<ctx, outs>>
    [] e.ev = "call" ->
        LET R == TLCEval(Call(st, e)) IN
        /\ st' = R.S /\ k' = k + 1
        /\ outs' = IF e.mode = "run" /\ R.exc = "" /\ Len(outs) < Data.maxouts THEN Append(outs, [acc |-> R.acc, out |-> R.out]) ELSE outs
        /\ Assert(LawCall(e, R), <<"law", path, e>>)
        /\ UNCHANGED <<pure, ctx>>
    [] e.ev = "exit" -> ctx' = "" /\ k' = 0 /\ st' = Leave(st) /\ UNCHANGED <<pure, outs>>
    [] e.ev = "dropversion" -> st' = DropVersion(st, e.sem) /\ k' = 1 /\ UNCHANGED <<pure, ctx, outs>>
    [] e.ev = "dropcall" -> st' = DropRecs(st, {e.rec}, e.deps) /\ k' = 1 /\ UNCHANGED <<pure, ctx, outs>>
    [] OTHER -> k' = 1 /\ UNCHANGED <<st, pure, ctx, outs>>
\* how a record is pointed at in a printed history
Shown(e) == IF e.ev # "dropcall" THEN e
            ELSE [ev |-> e.ev, deps |-> e.deps, op |-> e.rec.op, x |-> e.rec.x, val |-> e.rec.val, cont |-> e.rec.cont, const |-> st.hists[e.rec.h].op = ""]
MNext ==
  /\ Len(path) < Data.maxev
  /\ \E e \in Enabled1 : Do(e) /\ path' = Append(path, Shown(e))
                         /\ (Data.print => PrintT("@@B " \o ToJson(path')))
MSpec == MInit /\ [][MNext]_<<st, pure, ctx, k, outs, path>>
MView == <<st, pure, ctx, k, outs>>
=============================================================================
