------------------------------ MODULE StoreMC -------------------------------
(***************************************************************************)
(* All behaviours of a small configuration of Store: a few functions, a    *)
(* few values, one or two sessions, failing commits, crashes, deletion and *)
(* clean-up, to a bounded number of events.                                *)
(*                                                                         *)
(* Two uses: TLC checks that the specification itself has the listed       *)
(* properties (the invariants and the laws of each transition below), and, *)
(* with PRINT set, one behaviour per transition is printed; the behaviours *)
(* are then performed on the real storage (harness/replay.py) and what it  *)
(* does is judged by StoreTrace.                                           *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils, SequencesExt

VARIABLES st, path

Data == JsonDeserialize(IOEnv.MC_FILE)
MOps == Data.ops
MDbOf == Data.dbof
Alphabet == ToSet(Data.alphabet)      \* functions the program calls
Values == ToSet(Data.values)          \* values it calls them with
Kinds == ToSet(Data.kinds)            \* kinds of events
MaxEv == Data.maxev
MaxHs == Data.maxhs
Printing == Data.print
Sessions == DOMAIN DbOf
Dbs == {DbOf[s] : s \in Sessions}
ProcOf(s) == IF Data.procs = 1 THEN 1 ELSE s
Procs == 1..Data.procs

----------------------------------------------------------------------------
(* What the program may do in a state.                                      *)
All(x, s) == Merge(x.pend[s], x.db[DbOf[s]])
LiveH(x, s) == {j \in 1..Len(x.hs[s]) : x.hs[s][j].hid \in DOMAIN All(x, s).shapes}
IsIdle(x, s) == OwnStack(x, ProcOf(s), s) = <<>>
Others(s) == {t \in Sessions : t # s /\ DbOf[t] = DbOf[s]}
Top(x, p) == x.ctx[p][Len(x.ctx[p])]

HArg(j) == [a |-> "h", v |-> SV(""), h |-> j, k |-> <<>>, e |-> <<>>]
LArg(as) == [a |-> "l", v |-> SV(""), h |-> 0, k |-> <<>>, e |-> as]
ArgsFor(x, s, tp) ==
  LET Held(k) == IF s = 0 THEN {} ELSE {HArg(j) : j \in {i \in LiveH(x, s) : x.hs[s][i].kind = k}}
      Fresh(k) == CASE k = "A" -> {ArgV(SV(v)) : v \in Values}
                    [] k = "L" -> {ArgV(LV(<<>>))}
                    [] OTHER -> {}
  IN IF tp.t = "L"
     THEN Held("L") \cup Fresh("L") \cup {LArg(<<a, b>>) : a \in Held(tp.e[1].t), b \in Fresh(tp.e[1].t)}
     ELSE Held(tp.t) \cup Fresh(tp.t)

Ev(k, s, p) == [ev |-> k, s |-> s, p |-> p]
CallEvents(x) ==
  UNION {LET p == ProcOf(s)
             cx == x.ctx[p]
             rs == IF cx = <<>> THEN 0 ELSE Top(x, p).s
             arity == [o \in Alphabet |-> Len(Ops[o].pn)]
         IN IF rs # 0 /\ rs # s THEN {}
            ELSE IF rs # 0 /\ Len(x.hs[rs]) >= MaxHs THEN {}
            ELSE UNION {IF arity[o] = 1 THEN {Ev("call", rs, p) @@ [op |-> o, args |-> <<a>>, kw |-> 0] : a \in ArgsFor(x, rs, Ops[o].ptp[1])}
                        ELSE {Ev("call", rs, p) @@ [op |-> o, args |-> <<a, b>>, kw |-> 0] :
                                a \in ArgsFor(x, rs, Ops[o].ptp[1]), b \in ArgsFor(x, rs, Ops[o].ptp[2])}
                        : o \in Alphabet}
         : s \in Sessions}

Outermost(x, p) == \A i \in 1..(Len(x.ctx[p]) - 1) : x.ctx[p][i].s # Top(x, p).s
DropEvents(x) ==
  UNION {LET p == ProcOf(s)
             ok == /\ \/ x.ctx[p] = <<>>
                      \/ Top(x, p).s = s
                   /\ \A t \in Others(s) : IsIdle(x, t) /\ IsEmptyP(x.pend[t])
             js == {j \in LiveH(x, s) : /\ x.hs[s][j].by # ""
                                        /\ x.ctx[p] # <<>> \/ x.hs[s][j].by \in DOMAIN x.db[DbOf[s]].calls}
         IN IF ~ok THEN {}
            ELSE {Ev("drop", s, p) @@ [targets |-> <<j>>, dep |-> b, n |-> 0, as_calls |-> FALSE] : j \in js, b \in BOOLEAN}
         : s \in Sessions}

PendOf(x, p) == x.pend[Top(x, p).s]
Events(x) ==
     {Ev("enter", s, ProcOf(s)) @@ [mode |-> m] : s \in {t \in Sessions : Len(x.ctx[ProcOf(t)]) < Data.maxdepth}, m \in ToSet(Data.modes)}
  \cup {Ev("exit", Top(x, p).s, p) @@ [exc |-> e] : p \in {q \in Procs : x.ctx[q] # <<>>}, e \in ToSet(Data.exits)}
  \cup {Ev("faultexit", Top(x, p).s, p) @@ [n |-> 1, fs |-> 0] : p \in {q \in Procs : x.ctx[q] # <<>> /\ Outermost(x, q) /\ ~IsEmptyP(PendOf(x, q))}}
  \cup {Ev("killexit", Top(x, p).s, p) @@ [n |-> n, fs |-> 0] : p \in {q \in Procs : Data.procs = 1 /\ Len(x.ctx[q]) = 1 /\ ~IsEmptyP(PendOf(x, q))}, n \in {0, 1, 2}}
  \cup {Ev("commit", s, ProcOf(s)) : s \in {t \in Sessions : ~IsEmptyP(x.pend[t])}}
  \cup {Ev("clear", s, ProcOf(s)) @@ [force |-> f] : s \in Sessions, f \in BOOLEAN}
  \cup {Ev("preload", s, ProcOf(s)) @@ [lazy |-> FALSE] : s \in Sessions}
  \cup {Ev("reopen", s, ProcOf(s)) : s \in {t \in Sessions : IsIdle(x, t)}}
  \cup {Ev("allow", s, ProcOf(s)) @@ [allow |-> ~x.allow[s]] : s \in Sessions}
  \cup {Ev("noop", 0, p) : p \in {q \in Procs : x.ctx[q] # <<>> /\ Len(x.ctx[q]) < Data.maxdepth}}
  \cup {Ev("item", s, ProcOf(s)) @@ [h |-> j, i |-> 1] : s \in {t \in Sessions : Len(x.hs[t]) < MaxHs},
                                                        j \in {k \in 1..MaxHs : \E t \in Sessions : k \in LiveH(x, t)}}
  \cup {Ev("cleanup", s, ProcOf(s)) : s \in {t \in Sessions : /\ x.ctx[ProcOf(t)] = <<>> /\ IsEmptyP(x.pend[t]) /\ Others(t) = {}}}
  \cup {Ev("read", s, ProcOf(s)) @@ [hs |-> SetToSeq(LiveH(x, s)), how |-> h] : s \in {t \in Sessions : LiveH(x, t) # {}}, h \in {"unwrap", "load"}}
  \cup DropEvents(x) \cup CallEvents(x)
Enabled1(x) ==
  {e \in Events(x) : /\ e.ev \in Kinds
                     /\ e.ev = "item" => e.h \in LiveH(x, e.s) /\ Len(x.hs[e.s][e.h].items) >= 1}

\* the effect of an event; what follows a deletion by another session is a new session
Apply(x, e) ==
  CASE e.ev = "faultexit" -> StepExit(x, e, FALSE)
    [] e.ev = "killexit" -> [st |-> Step(StepExit(x, e, e.n = 0).st, Ev("reopen", e.s, e.p)).st, out |-> Out]
    [] OTHER -> Step(x, e)
RECURSIVE ApplyAll(_, _)
ApplyAll(x, es) == IF es = <<>> THEN x ELSE ApplyAll(Apply(x, es[1]).st, Tail(es))
Follow(e) == IF e.ev = "drop" THEN LET os == SetToSeq(Others(e.s)) IN [i \in 1..Len(os) |-> Ev("reopen", os[i], ProcOf(os[i]))] ELSE <<>>

----------------------------------------------------------------------------
(* Properties of states.                                                    *)
ValOf(d, h) == d.shapes[h].val
UserCall(c) == c.op \in DOMAIN Ops
\* the arguments in the order of the parameters
ArgVals(d, c) == LET D == Ops[c.op] IN
  [i \in 1..Len(D.pn) |-> ValOf(d, (CHOOSE x \in ToSet(c.ins) : x.n = D.pn[i]).hid)]
TrueCalls(d) ==      \* P01: what is recorded is what the functions return
  \A h \in DOMAIN d.calls :
    LET c == d.calls[h] IN
    UserCall(c) => /\ Plain(c.op, ArgVals(d, c)).exc = ""
                   /\ Plain(c.op, ArgVals(d, c)).outs = [k \in 1..Len(c.outs) |-> ValOf(d, c.outs[k].hid)]
TrueItems(d) ==      \* P06: recorded item accesses give the items, recorded constructions the collection
  \A h \in DOMAIN d.calls :
    LET c == d.calls[h]
        In(n) == ValOf(d, (CHOOSE x \in ToSet(c.ins) : x.n = n).hid)
        o == ValOf(d, c.outs[1].hid)
    IN /\ c.op = "__list_getitem__" => \E i \in 1..Len(In("list").e) : In("i") = IV(i - 1) /\ o = In("list").e[i]
       /\ c.op = "__dict_getitem__" => \E i \in 1..Len(In("dict").e) : In("key") = SV(In("dict").k[i]) /\ o = In("dict").e[i]
       /\ c.op = "__make_list__" => o = LV([i \in 1..Len(c.ins) |-> In("elts_" \o ToString(i - 1))])
Closed(d) ==         \* P03: nothing recorded refers to something that is not there
  /\ \A h \in DOMAIN d.calls : \A i \in 1..Len(d.calls[h].ins) : d.calls[h].ins[i].hid \in DOMAIN d.shapes
  /\ \A h \in DOMAIN d.calls : \A i \in 1..Len(d.calls[h].outs) : d.calls[h].outs[i].hid \in DOMAIN d.shapes
  /\ \A h \in DOMAIN d.shapes : \A i \in 1..Len(d.shapes[h].items) : d.shapes[h].items[i].hid \in DOMAIN d.shapes
  /\ \A h \in DOMAIN d.shapes : d.shapes[h].kind = "A" => d.shapes[h].cid \in DOMAIN d.atoms /\ d.atoms[d.shapes[h].cid] = d.shapes[h].val
OneCreator(d) ==     \* P04
  \A h1 \in DOMAIN d.calls, h2 \in DOMAIN d.calls :
    h1 # h2 => {d.calls[h1].outs[i].hid : i \in 1..Len(d.calls[h1].outs)} \cap {d.calls[h2].outs[i].hid : i \in 1..Len(d.calls[h2].outs)} = {}
IdsAgree(d) ==       \* P04: a history has one content, and calls name refs by it
  \A h \in DOMAIN d.calls : \A x \in ToSet(d.calls[h].ins) \cup ToSet(d.calls[h].outs) : d.shapes[x.hid].cid = x.cid
Good(d) == TrueCalls(d) /\ TrueItems(d) /\ Closed(d) /\ OneCreator(d) /\ IdsAgree(d)
Inv == /\ \A n \in Dbs : Good(st.db[n])
       /\ \A s \in Sessions : Good(All(st, s))

----------------------------------------------------------------------------
(* Properties of transitions: what x, event e and the result r satisfy.     *)
Recorded1(e, x) == e.ev = "call" /\ x.ctx[e.p] # <<>> /\ Top(x, e.p).mode # "noop"
LawCall(x, e, r) ==
  LET s == IF x.ctx[e.p] = <<>> THEN 0 ELSE Top(x, e.p).s
      vals == [i \in 1..Len(e.args) |-> ArgVal(e.args[i], IF s = 0 THEN <<>> ELSE x.hs[s])]
      plain == Plain(e.op, vals)
  IN IF ~Recorded1(e, x)
     THEN r.st = x /\ r.out.exc = plain.exc /\ r.out.exec = plain.exec /\ r.out.vals = plain.outs   \* P09
     ELSE LET again == Step(r.st, e)
              cc == {All(x, s).calls[h].cid : h \in DOMAIN All(x, s).calls}
              now == All(r.st, s)
          IN /\ r.out.exc # "notallowed" => r.out.exc = plain.exc                                    \* P01
             /\ (r.out.exc = "") => [k \in 1..Len(r.out.refs) |-> r.out.refs[k].val] = plain.outs
             /\ (r.out.exc = "") => again.out.exec = <<>> /\ again.out.refs = r.out.refs            \* P02
             /\ r.out.how \in {"hid", "cid", "refused"} => r.out.exec = <<>>
             /\ r.out.how = "run" => (r.out.exec # <<>> /\ r.out.exec[1] = e.op)
             /\ r.out.exc = "notallowed" => ~x.allow[s] /\ r.st.pend = x.pend
             /\ (r.out.exc = "") => \A k \in 1..Len(r.out.refs) :
                    /\ r.out.refs[k].hid \in DOMAIN now.shapes
                    /\ \E h \in DOMAIN now.calls : now.calls[h].op = e.op /\ OutHid(h, Ops[e.op].on[k]) = r.out.refs[k].hid
             /\ (r.out.how \in {"run", "cid"}) => \A k \in 1..Len(r.out.refs) :                     \* P06
                    LET it == r.out.refs[k] IN
                    it.kind = "L" => \A i \in 1..Len(it.items) : \E h \in DOMAIN now.calls :
                        /\ now.calls[h].op = "__list_getitem__"
                        /\ now.calls[h].outs[1].hid = it.items[i].hid
             /\ r.st.db = x.db                                                                      \* P03
LawDb(x, e, y) ==
  /\ (y.db # x.db) => e.ev \in {"exit", "commit", "drop", "cleanup", "killexit"}                    \* P03
  /\ \A n \in Dbs : (y.db[n] # x.db[n]) => DbOf[e.s] = n                                            \* P08
  /\ \A t \in Sessions : (y.pend[t] # x.pend[t]) => (t = e.s \/ (e.ev = "drop" /\ t \in Others(e.s)))
  /\ e.ev \in {"exit", "commit", "killexit"} =>
       \/ y.db = x.db
       \/ y.db[DbOf[e.s]] = All(x, e.s)                                                             \* all or nothing
  /\ e.ev \in {"exit", "commit", "killexit"} => \A n \in Dbs :
       /\ \A h \in DOMAIN x.db[n].calls : h \in DOMAIN y.db[n].calls /\ y.db[n].calls[h] = x.db[n].calls[h]
       /\ \A c \in DOMAIN x.db[n].atoms : c \in DOMAIN y.db[n].atoms /\ y.db[n].atoms[c] = x.db[n].atoms[c]
  /\ (e.ev = "exit" /\ Outermost(x, e.p)) => IsEmptyP(y.pend[e.s]) /\ y.db[DbOf[e.s]] = All(x, e.s)
LawDrop(x, e, y) ==
  LET a == x.db[DbOf[e.s]]
      b == y.db[DbOf[e.s]]
      named == {x.hs[e.s][i].by : i \in ToSet(e.targets)}
      gone == DOMAIN a.calls \ DOMAIN b.calls
      goneouts == OutHids(a.calls, gone)
      InsOf(h) == {a.calls[h].ins[i].hid : i \in 1..Len(a.calls[h].ins)}
  IN /\ b.shapes = a.shapes /\ b.atoms = a.atoms
     /\ DOMAIN b.calls \subseteq DOMAIN a.calls
     /\ named \cap DOMAIN b.calls = {}
     /\ ~e.dep => gone \subseteq named
     /\ e.dep => /\ \A h \in DOMAIN b.calls : InsOf(h) \cap goneouts = {}
                 /\ \A h \in gone \ named : InsOf(h) \cap OutHids(All(x, e.s).calls, DOMAIN All(x, e.s).calls \ DOMAIN All(y, e.s).calls) # {}
LawClean(x, e, y) ==
  LET a == x.db[DbOf[e.s]]
      b == y.db[DbOf[e.s]]
  IN /\ b.calls = a.calls
     /\ CleanDb(b) = b
     /\ \A h \in Needed(a) : h \in DOMAIN b.shapes /\ b.shapes[h] = a.shapes[h]
     /\ \A h \in DOMAIN b.shapes : b.shapes[h].kind = "A" => b.atoms[b.shapes[h].cid] = a.atoms[b.shapes[h].cid]
     /\ DOMAIN b.shapes = Needed(a)
Law(x, e, r, y) ==
  /\ e.ev = "call" => LawCall(x, e, r)
  /\ e.ev = "drop" => LawDrop(x, e, y)
  /\ e.ev = "cleanup" => LawClean(x, e, y)
  /\ LawDb(x, e, y)

----------------------------------------------------------------------------
MInit == /\ st = Init0(Sessions, Dbs, Procs)
         /\ path = <<>>
MNext ==
  /\ Len(path) < MaxEv
  /\ \E e \in Enabled1(st) :
       LET r == Apply(st, e)
           f == Follow(e)
           y == ApplyAll(r.st, f)
       IN /\ st' = y
          /\ path' = path \o <<e>> \o f
          /\ Assert(Law(st, e, r, y), <<"law", path, e>>)
          /\ Printing => PrintT("@@B " \o ToJson(path'))
MSpec == MInit /\ [][MNext]_<<st, path>>
MView == st
=============================================================================
