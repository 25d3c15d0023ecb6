------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The state and transitions of mandala's storage: memoized calls, history *)
(* and content identity, collections, contexts, commits, sessions sharing  *)
(* a database, deletion and clean-up.                                      *)
(*                                                                         *)
(* Hashes are free terms: a content id is the printed value, a history id  *)
(* is the printed history.  Every transition is a function Step(st, ev) of *)
(* the state and an event, so that the same definitions are used to        *)
(*   - explore all behaviours of a small configuration   (StoreMC),        *)
(*   - generate behaviours to replay into the code       (StoreGen),       *)
(*   - accept or reject what the code did                (StoreTrace).     *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   db    database name -> [calls, shapes, atoms], what is committed      *)
(*   pend  session -> [calls, shapes, atoms], what is not committed yet    *)
(*   ctx   process -> the stack of open regions, each [s, mode]            *)
(*   allow session -> are new calls allowed                                *)
(*   hs    session -> the refs the program holds                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Ops,       \* op name -> descriptor
          DbOf,      \* session -> database name
          FirstOp    \* unused placeholder for configurations

EmptyFun == [x \in {} |-> x]
Range1(f) == {f[x] : x \in DOMAIN f}
Restrict1(f, S) == [x \in (DOMAIN f \cap S) |-> f[x]]

----------------------------------------------------------------------------
(* Values. Uniform records so that any two values can be compared.          *)
SV(x) == [t |-> "s", v |-> x, k |-> <<>>, e |-> <<>>]
BV(x) == [t |-> "b", v |-> x, k |-> <<>>, e |-> <<>>]
IV(i) == [t |-> "i", v |-> ToString(i), k |-> <<>>, e |-> <<>>]
LV(xs) == [t |-> "l", v |-> "", k |-> <<>>, e |-> xs]
DV(ks, xs) == [t |-> "d", v |-> "", k |-> ks, e |-> xs]

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
  IF Len(ss) = 0 THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

RECURSIVE VRepr(_)
VRepr(x) ==
  CASE x.t = "s" -> "'" \o x.v \o "'"
    [] x.t = "b" -> "<" \o x.v \o ">"
    [] x.t = "i" -> x.v
    [] x.t = "l" -> "[" \o JoinStr([i \in 1..Len(x.e) |-> VRepr(x.e[i])], ",") \o "]"
    [] x.t = "d" -> "{" \o JoinStr([i \in 1..Len(x.e) |-> x.k[i] \o ":" \o VRepr(x.e[i])], ",") \o "}"
    [] OTHER -> "?" \o x.v

RECURSIVE HasBig(_)
HasBig(x) == x.t = "b" \/ \E i \in 1..Len(x.e) : HasBig(x.e[i])

----------------------------------------------------------------------------
(* References.                                                              *)
Atom(v, hid) == [kind |-> "A", cid |-> VRepr(v), hid |-> hid, val |-> v, keys |-> <<>>, items |-> <<>>]
Raw(v) == Atom(v, "~" \o VRepr(v))
WithHid(r, h) == [r EXCEPT !.hid = h]

\* inputs/outputs are sequences of [n, r], in the canonical order of names
Named(ns, rs) == [i \in 1..Len(ns) |-> [n |-> ns[i], r |-> rs[i]]]
CallHid(op, ins) == op \o "(" \o JoinStr([i \in 1..Len(ins) |-> ins[i].n \o "=" \o ins[i].r.hid], ",") \o ")"
CallCid(op, ins) == op \o "(" \o JoinStr([i \in 1..Len(ins) |-> ins[i].n \o "=" \o ins[i].r.cid], ",") \o ")"
OutHid(ch, n) == ch \o "." \o n
Slim(nrs) == [i \in 1..Len(nrs) |-> [n |-> nrs[i].n, cid |-> nrs[i].r.cid, hid |-> nrs[i].r.hid]]
MkCall(op, ins, outs) ==
  [op |-> op, hid |-> CallHid(op, ins), cid |-> CallCid(op, ins), ins |-> ins, outs |-> outs]

ListRef(items, hid) ==
  [kind |-> "L", cid |-> (IF items = <<>> THEN "" ELSE "L") \o "[" \o JoinStr([i \in 1..Len(items) |-> items[i].cid], ",") \o "]",
   hid |-> hid, val |-> LV([i \in 1..Len(items) |-> items[i].val]), keys |-> <<>>, items |-> items]
DictRef(ks, items, hid) ==
  [kind |-> "D", cid |-> (IF items = <<>> THEN "" ELSE "D") \o "{" \o JoinStr([i \in 1..Len(items) |-> ks[i] \o ":" \o items[i].cid], ",") \o "}",
   hid |-> hid, val |-> DV(ks, [i \in 1..Len(items) |-> items[i].val]), keys |-> ks, items |-> items]

\* building a collection is itself a (structural) call whose inputs are the items
MakeList(items) ==
  LET ins == Named([i \in 1..Len(items) |-> "elts_" \o ToString(i - 1)], items)
      h == CallHid("__make_list__", ins)
      r == ListRef(items, OutHid(h, "list"))
  IN [ref |-> r, call |-> MkCall("__make_list__", ins, Named(<<"list">>, <<r>>))]
MakeDict(ks, items) ==
  LET ins == Named(ks, items)
      h == CallHid("__make_dict__", ins)
      r == DictRef(ks, items, OutHid(h, "dict"))
  IN [ref |-> r, call |-> MkCall("__make_dict__", ins, Named(<<"dict">>, <<r>>))]

\* the items of a result are the results of item accesses on it: [ref, calls]
RECURSIVE Destruct(_)
Destruct(r) ==
  IF r.kind = "A" THEN [ref |-> r, calls |-> <<>>]
  ELSE
    LET GetOp == IF r.kind = "L" THEN "__list_getitem__" ELSE "__dict_getitem__"
        out == IF r.kind = "L" THEN "list_item" ELSE "dict_value"
        Ins(i) == IF r.kind = "L" THEN Named(<<"i", "list">>, <<Raw(IV(i - 1)), r>>)
                                  ELSE Named(<<"dict", "key">>, <<r, Raw(SV(r.keys[i]))>>)
        sub == [i \in 1..Len(r.items) |->
                 Destruct(WithHid(r.items[i], OutHid(CallHid(GetOp, Ins(i)), out)))]
        ref == [r EXCEPT !.items = [i \in 1..Len(sub) |-> sub[i].ref]]
        ThisIns(i) == IF r.kind = "L" THEN Named(<<"i", "list">>, <<Raw(IV(i - 1)), ref>>)
                                      ELSE Named(<<"dict", "key">>, <<ref, Raw(SV(r.keys[i]))>>)
        this == [i \in 1..Len(sub) |-> MkCall(GetOp, ThisIns(i), Named(<<out>>, <<sub[i].ref>>))]
    IN [ref |-> ref, calls |-> this \o FlattenSeq([i \in 1..Len(sub) |-> sub[i].calls])]

----------------------------------------------------------------------------
(* Arguments given by the program: a value, a held ref, or a collection of  *)
(* arguments.  Construct wraps one according to its declared type.          *)
ArgV(v) == [a |-> "v", v |-> v, h |-> 0, k |-> <<>>, e |-> <<>>]

RECURSIVE Construct(_, _, _)
Construct(tp, arg, hs) ==
  IF arg.a = "h" THEN [ref |-> hs[arg.h], calls |-> <<>>]
  ELSE IF tp.t = "A" THEN [ref |-> Raw(arg.v), calls |-> <<>>]
  ELSE
    LET n == IF arg.a = "v" THEN Len(arg.v.e) ELSE Len(arg.e)
        Elt(i) == IF arg.a = "v" THEN ArgV(arg.v.e[i]) ELSE arg.e[i]
        ks == IF arg.a = "v" THEN arg.v.k ELSE arg.k
        sub == [i \in 1..n |-> Construct(tp.e[1], Elt(i), hs)]
        items == [i \in 1..n |-> sub[i].ref]
        m == IF tp.t = "L" THEN MakeList(items) ELSE MakeDict(ks, items)
    IN [ref |-> m.ref, calls |-> FlattenSeq([i \in 1..n |-> sub[i].calls]) \o <<m.call>>]

RECURSIVE ArgVal(_, _)
ArgVal(arg, hs) ==
  CASE arg.a = "h" -> hs[arg.h].val
    [] arg.a = "v" -> arg.v
    [] arg.a = "l" -> LV([i \in 1..Len(arg.e) |-> ArgVal(arg.e[i], hs)])
    [] OTHER -> DV(arg.k, [i \in 1..Len(arg.e) |-> ArgVal(arg.e[i], hs)])

----------------------------------------------------------------------------
(* What the user's functions do when run plainly: [exc, outs, exec].        *)
Args(vals) == JoinStr([i \in 1..Len(vals) |-> VRepr(vals[i])], ",")
Cat(op, k, vals) == SV(op \o "." \o k \o "(" \o Args(vals) \o ")")
Specials == {SV("x"), SV("y")}

SimpleOuts(op, D, vals) ==
  CASE D.body = "cat" -> [k \in 1..Len(D.on) |-> Cat(op, ToString(k), vals)]
    [] D.body = "par" -> <<IF vals[1] \in Specials THEN SV(op \o ".same") ELSE Cat(op, "1", vals)>>
    [] D.body = "id" -> <<vals[1]>>
    [] D.body = "swap" -> <<vals[2], vals[1]>>
    [] D.body = "const" -> [k \in 1..Len(D.on) |-> SV("const" \o ToString(k))]
    [] D.body = "big" -> <<BV(op \o "(" \o Args(vals) \o ")")>>
    [] D.body = "mkl" -> <<LV(<<vals[1], Cat(op, "1", vals), vals[1]>>)>>
    [] D.body = "mkl0" -> <<LV(<<>>)>>
    [] D.body = "mkll" -> <<LV(<<LV(<<vals[1]>>), LV(<<>>), LV(<<SV("z"), vals[1]>>)>>)>>
    [] D.body = "mkd" -> <<DV(<<"k1", "k2">>, <<vals[1], Cat(op, "1", vals)>>)>>
    [] D.body = "mkdl" -> <<DV(<<"k1", "k2">>, <<LV(<<vals[1], SV("z")>>), LV(<<>>)>>)>>
    [] D.body = "rev" -> <<LV(Reverse(vals[1].e))>>
    [] OTHER -> <<SV("?")>>

RECURSIVE Plain(_, _)
Plain(op, vals) ==
  LET D == Ops[op]
      inner == Plain(D.inner, <<vals[1]>>)
      Nest(exc, outs) == [exc |-> exc, outs |-> outs, exec |-> <<op>> \o inner.exec]
  IN
  CASE D.body \in {"nestr", "nestn", "nesta", "nestx", "nestc"} ->
        IF D.body = "nestc" THEN
           Nest("", <<IF inner.exc # "" THEN SV(op \o ".caught") ELSE Cat(op, "1", <<inner.outs[1]>>)>>)
        ELSE IF inner.exc # "" THEN Nest(inner.exc, <<>>)
        ELSE IF D.body = "nestx" /\ vals[1] \in Specials THEN Nest("user", <<>>)
        ELSE IF D.body = "nestr" THEN Nest("", <<inner.outs[1]>>)
        ELSE Nest("", <<Cat(op, "1", <<inner.outs[1]>>)>>)
    [] D.body = "ex" /\ vals[1] \in Specials -> [exc |-> "user", outs |-> <<>>, exec |-> <<op>>]
    [] D.body = "ex" -> [exc |-> "", outs |-> <<Cat(op, "1", vals)>>, exec |-> <<op>>]
    [] OTHER -> [exc |-> "", outs |-> SimpleOuts(op, D, vals), exec |-> <<op>>]

----------------------------------------------------------------------------
(* Recording.  p is what a session has not committed, d what is committed.  *)
EmptyP == [calls |-> EmptyFun, shapes |-> EmptyFun, atoms |-> EmptyFun]
IsEmptyP(p) == DOMAIN p.calls = {} /\ DOMAIN p.shapes = {} /\ DOMAIN p.atoms = {}
Merge(p, d) == [calls |-> p.calls @@ d.calls, shapes |-> p.shapes @@ d.shapes, atoms |-> p.atoms @@ d.atoms]

RECURSIVE SaveRef(_, _, _), SaveRefs(_, _, _)
SaveRef(p, d, r) ==
  IF r.hid \in DOMAIN p.shapes \/ r.hid \in DOMAIN d.shapes THEN p
  ELSE LET p1 == [p EXCEPT !.shapes = @ @@ (r.hid :> r),
                           !.atoms = IF r.kind = "A" THEN (r.cid :> r.val) @@ @ ELSE @]
       IN SaveRefs(p1, d, r.items)
SaveRefs(p, d, rs) == IF rs = <<>> THEN p ELSE SaveRefs(SaveRef(p, d, rs[1]), d, Tail(rs))

SaveCall(p, d, c) ==
  IF c.hid \in DOMAIN p.calls \/ c.hid \in DOMAIN d.calls THEN p
  ELSE LET rs == [i \in 1..Len(c.ins) |-> c.ins[i].r] \o [i \in 1..Len(c.outs) |-> c.outs[i].r]
           p1 == SaveRefs(p, d, rs)
       IN [p1 EXCEPT !.calls = @ @@ (c.hid :> [op |-> c.op, hid |-> c.hid, cid |-> c.cid,
                                              ins |-> Slim(c.ins), outs |-> Slim(c.outs)])]
RECURSIVE SaveCalls(_, _, _)
SaveCalls(p, d, cs) == IF cs = <<>> THEN p ELSE SaveCalls(SaveCall(p, d, cs[1]), d, Tail(cs))

----------------------------------------------------------------------------
(* A memoized call: [p, exc, outs (refs), exec, how].                       *)
ShapeIn(p, d, h) == IF h \in DOMAIN p.shapes THEN p.shapes[h] ELSE d.shapes[h]

RECURSIVE DoCall(_, _, _, _, _, _), Run(_, _, _, _)
DoCall(p, d, allow, op, args, hs) ==
  LET D == Ops[op]
      cs == [i \in 1..Len(args) |-> Construct(D.ptp[i], args[i], hs)]
      ins == [i \in 1..Len(args) |-> [n |-> D.pn[D.srt[i]], r |-> cs[D.srt[i]].ref]]
      incalls == FlattenSeq([i \in 1..Len(args) |-> cs[i].calls])
      ch == CallHid(op, ins)
      cc == CallCid(op, ins)
      same == {h \in DOMAIN p.calls \cup DOMAIN d.calls :
                 LET c == IF h \in DOMAIN p.calls THEN p.calls[h] ELSE d.calls[h] IN c.op = op /\ c.cid = cc}
      Finish(p1, outs, exec, how) ==   \* outs: refs with items of any history
        LET ds == [k \in 1..Len(outs) |-> Destruct(WithHid(outs[k], OutHid(ch, D.on[k])))]
            refs == [k \in 1..Len(ds) |-> ds[k].ref]
            main == MkCall(op, ins, Named(D.on, refs))
            more == FlattenSeq([k \in 1..Len(ds) |-> ds[k].calls])
        IN [p |-> SaveCalls(SaveCalls(SaveCall(p1, d, main), d, incalls), d, more),
            exc |-> "", outs |-> refs, exec |-> exec, how |-> how, by |-> ch]
      Recorded(h) == LET c == IF h \in DOMAIN p.calls THEN p.calls[h] ELSE d.calls[h]
                     IN [k \in 1..Len(c.outs) |-> ShapeIn(p, d, c.outs[k].hid)]
      run == Run(p, d, op, [i \in 1..Len(args) |-> ArgVal(args[i], hs)])
  IN
  IF ch \in DOMAIN p.calls \cup DOMAIN d.calls THEN
    [p |-> SaveCalls(p, d, incalls), exc |-> "", outs |-> Recorded(ch), exec |-> <<>>, how |-> "hid", by |-> ch]
  ELSE IF same # {} THEN Finish(p, Recorded(CHOOSE h \in same : TRUE), <<>>, "cid")
  ELSE IF ~allow THEN [p |-> p, exc |-> "notallowed", outs |-> <<>>, exec |-> <<>>, how |-> "refused", by |-> ch]
  ELSE IF run.exc # "" THEN [p |-> run.p, exc |-> run.exc, outs |-> <<>>, exec |-> run.exec, how |-> "raised", by |-> ch]
  ELSE Finish(run.p,
              [k \in 1..Len(run.outs) |->
                 IF run.outs[k].isref THEN run.outs[k].r
                 ELSE Construct(D.otp[k], ArgV(run.outs[k].v), <<>>).ref],
              run.exec, "run")

\* running the body inside the context: memoized functions it calls are memoized
Run(p, d, op, vals) ==
  LET D == Ops[op]
      plain == Plain(op, vals)
      V(v) == [isref |-> FALSE, v |-> v, r |-> Raw(v)]
      R(r) == [isref |-> TRUE, v |-> r.val, r |-> r]
      in == DoCall(p, d, TRUE, D.inner, <<ArgV(vals[1])>>, <<>>)
  IN
  IF D.body \in {"nestr", "nesta", "nestx", "nestc"} THEN
     [p |-> in.p, exc |-> plain.exc, exec |-> <<op>> \o in.exec,
      outs |-> IF plain.exc # "" THEN <<>>
               ELSE IF D.body = "nestr" THEN <<R(in.outs[1])>>
               ELSE [k \in 1..Len(plain.outs) |-> V(plain.outs[k])]]
  ELSE [p |-> p, exc |-> plain.exc, exec |-> plain.exec,
        outs |-> [k \in 1..Len(plain.outs) |-> V(plain.outs[k])]]

----------------------------------------------------------------------------
(* Deletion.                                                                *)
OutHids(calls, S) == UNION {{calls[h].outs[i].hid : i \in 1..Len(calls[h].outs)} : h \in S}
RECURSIVE Dependents(_, _)
Dependents(calls, S) ==
  LET outs == OutHids(calls, S)
      more == {h \in DOMAIN calls \ S : \E i \in 1..Len(calls[h].ins) : calls[h].ins[i].hid \in outs}
  IN IF more = {} THEN S ELSE Dependents(calls, S \cup more)

RefHids(calls) ==
  UNION {{calls[h].ins[i].hid : i \in 1..Len(calls[h].ins)} \cup
         {calls[h].outs[i].hid : i \in 1..Len(calls[h].outs)} : h \in DOMAIN calls}
RefCids(calls) ==
  UNION {{calls[h].ins[i].cid : i \in 1..Len(calls[h].ins)} \cup
         {calls[h].outs[i].cid : i \in 1..Len(calls[h].outs)} : h \in DOMAIN calls}

\* a call that uses a collection needs the items of the collection, too
RECURSIVE WithItems(_, _)
WithItems(d, S) ==
  LET more == UNION {{d.shapes[h].items[i].hid : i \in 1..Len(d.shapes[h].items)} : h \in S \cap DOMAIN d.shapes} \ S
  IN IF more = {} THEN S ELSE WithItems(d, S \cup more)
Needed(d) == WithItems(d, RefHids(d.calls))

CleanDb(d) ==
  LET shapes == Restrict1(d.shapes, Needed(d))
      cids == RefCids(d.calls) \cup {shapes[h].cid : h \in DOMAIN shapes}
  IN [d EXCEPT !.shapes = shapes, !.atoms = Restrict1(@, cids)]

----------------------------------------------------------------------------
(* The transitions.  Step(st, ev) = [st, out], out being what is observable. *)
Out == [exc |-> "", exec |-> <<>>, kind |-> "", refs |-> <<>>, vals |-> <<>>, how |-> ""]

OwnStack(st, p, s) == SelectSeq(st.ctx[p], LAMBDA c : c.s = s)
CurMode(st, p, s) == LET o == OwnStack(st, p, s) IN IF o = <<>> THEN "run" ELSE o[Len(o)].mode
Commit(st, s) ==
  [st EXCEPT !.db[DbOf[s]] = Merge(st.pend[s], @), !.pend[s] = EmptyP]

StepEnter(st, ev) ==
  LET mode == IF ev.mode = "" THEN CurMode(st, ev.p, ev.s) ELSE ev.mode
  IN [st |-> [st EXCEPT !.ctx[ev.p] = Append(@, [s |-> ev.s, mode |-> mode])], out |-> Out]

StepNoop(st, ev) ==
  [st |-> IF st.ctx[ev.p] = <<>> THEN st
          ELSE [st EXCEPT !.ctx[ev.p] = Append(@, [s |-> @[Len(@)].s, mode |-> "noop"])], out |-> Out]

\* leaving the innermost region; commits when it is the storage's outermost
StepExit(st, ev, works) ==
  LET top == st.ctx[ev.p][Len(st.ctx[ev.p])]
      st1 == [st EXCEPT !.ctx[ev.p] = SubSeq(@, 1, Len(@) - 1)]
      outermost == OwnStack(st1, ev.p, top.s) = <<>>
  IN [st |-> IF outermost /\ works THEN Commit(st1, top.s) ELSE st1,
      out |-> [Out EXCEPT !.exc = IF outermost /\ ~works THEN "dberror" ELSE ""]]

StepCall(st, ev) ==
  LET vals(s) == [i \in 1..Len(ev.args) |-> ArgVal(ev.args[i], IF s = 0 THEN <<>> ELSE st.hs[s])]
      cx == st.ctx[ev.p]
      top == cx[Len(cx)]
      plain == Plain(ev.op, vals(IF cx = <<>> THEN 0 ELSE top.s))
      r == DoCall(st.pend[top.s], st.db[DbOf[top.s]], st.allow[top.s], ev.op, ev.args, st.hs[top.s])
  IN
  IF cx = <<>> \/ top.mode = "noop" THEN
    [st |-> st, out |-> [Out EXCEPT !.exc = plain.exc, !.exec = plain.exec, !.kind = "V", !.vals = plain.outs]]
  ELSE
    [st |-> [st EXCEPT !.pend[top.s] = r.p,
                       !.hs[top.s] = @ \o [k \in 1..Len(r.outs) |-> r.outs[k] @@ [by |-> r.by]]],
     out |-> [Out EXCEPT !.exc = r.exc, !.exec = r.exec, !.kind = "R", !.refs = r.outs, !.how = r.how]]

StepDrop(st, ev) ==
  LET s == ev.s
      d == st.db[DbOf[s]]
      all == Merge(st.pend[s], d).calls
      by == {st.hs[s][i].by : i \in ToSet(ev.targets)} \cap DOMAIN all
      via == IF "via" \in DOMAIN ev THEN ev.via ELSE "by"
      insof == UNION {{all[h].ins[i].hid : i \in 1..Len(all[h].ins)} : h \in by}
      held == {st.hs[s][i].hid : i \in ToSet(ev.targets)}
      named == CASE via = "ins" -> {h \in DOMAIN all : OutHids(all, {h}) \cap insof # {}}
                 [] via = "cons" -> {h \in DOMAIN all : \E i \in 1..Len(all[h].ins) : all[h].ins[i].hid \in held}
                 [] OTHER -> by
      gone == IF ev.dep THEN Dependents(all, named) ELSE named
  IN [st |-> [st EXCEPT !.db[DbOf[s]].calls = Restrict1(@, DOMAIN @ \ gone),
                        !.pend[s].calls = Restrict1(@, DOMAIN @ \ gone)], out |-> Out]

Step(st, ev) ==
  CASE ev.ev = "enter" -> StepEnter(st, ev)
    [] ev.ev = "noop" -> StepNoop(st, ev)
    [] ev.ev = "exit" -> StepExit(st, ev, TRUE)
    [] ev.ev = "call" -> StepCall(st, ev)
    [] ev.ev = "commit" -> [st |-> Commit(st, ev.s), out |-> Out]
    [] ev.ev = "clear" ->
         IF ~ev.force /\ ~IsEmptyP(st.pend[ev.s])
         THEN [st |-> st, out |-> [Out EXCEPT !.exc = "uncommitted"]]
         ELSE [st |-> [st EXCEPT !.pend[ev.s] = EmptyP], out |-> Out]
    [] ev.ev = "preload" -> [st |-> st, out |-> Out]
    [] ev.ev = "allow" -> [st |-> [st EXCEPT !.allow[ev.s] = ev.allow], out |-> Out]
    [] ev.ev = "reopen" ->   \* the session ends (or crashes) and a new one begins
         [st |-> [st EXCEPT !.pend[ev.s] = EmptyP, !.allow[ev.s] = TRUE], out |-> Out]
    [] ev.ev = "drop" -> StepDrop(st, ev)
    [] ev.ev = "item" ->     \* take an item out of a held collection
         LET r == st.hs[ev.s][ev.h].items[ev.i]
         IN [st |-> [st EXCEPT !.hs[ev.s] = Append(@, r @@ [by |-> ""])],
             out |-> [Out EXCEPT !.kind = "R", !.refs = <<r>>]]
    [] ev.ev = "cleanup" -> [st |-> [st EXCEPT !.db[DbOf[ev.s]] = CleanDb(@)], out |-> Out]
    [] ev.ev = "read" ->     \* unwrap / attach / load of held refs
         [st |-> st, out |-> [Out EXCEPT !.vals = [i \in 1..Len(ev.hs) |-> st.hs[ev.s][ev.hs[i]].val]]]
    [] OTHER -> [st |-> st, out |-> Out]

Init0(sessions, dbs, procs) ==
  [db |-> [d \in dbs |-> EmptyP], pend |-> [s \in sessions |-> EmptyP], ctx |-> [p \in procs |-> <<>>],
   allow |-> [s \in sessions |-> TRUE], hs |-> [s \in sessions |-> <<>>]]
=============================================================================
