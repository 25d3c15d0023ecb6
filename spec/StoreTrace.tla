----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of the real storage against Store.           *)
(*                                                                         *)
(* Every recorded event is applied to the specification's state with       *)
(* Store!Step, and everything observed in the code is compared with what   *)
(* the specification says: results, exceptions, which bodies ran, and the  *)
(* contents of the databases.  Real hashes are matched with the terms of   *)
(* the specification by learning a bijection: an id that stands for two    *)
(* terms, or a term with two ids, is a mismatch.                           *)
(*                                                                         *)
(* Verdicts are total: each trace is consumed to its end, each mismatch is *)
(* printed with the clause that failed, and the end of each trace is       *)
(* printed.                                                                *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

VARIABLES tr, i, st, L

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
TOps == Data.ops
TDbOf == Data.dbof[1]

----------------------------------------------------------------------------
(* Learning the correspondence between ids and terms.                       *)
L0 == [M |-> EmptyFun, MI |-> EmptyFun, C |-> EmptyFun, CI |-> EmptyFun, f |-> <<>>, n |-> <<>>]
Fail(l, clause, exp, got) == [l EXCEPT !.f = Append(@, <<clause, exp, got>>)]
Expect(l, cond, clause, exp, got) == IF cond THEN l ELSE Fail(l, clause, exp, got)

LearnH(l, id, term) ==
  IF id \in DOMAIN l.M THEN Expect(l, l.M[id] = term, "hid", term, l.M[id])
  ELSE IF term \in DOMAIN l.MI THEN Fail([l EXCEPT !.M = @ @@ (id :> term)], "hid-dup", term, id)
  ELSE [l EXCEPT !.M = @ @@ (id :> term), !.MI = @ @@ (term :> id)]
LearnC(l, id, term) ==
  IF id \in DOMAIN l.C THEN Expect(l, l.C[id] = term, "cid", term, l.C[id])
  ELSE IF term \in DOMAIN l.CI THEN Fail([l EXCEPT !.C = @ @@ (id :> term)], "cid-dup", term, id)
  ELSE [l EXCEPT !.C = @ @@ (id :> term), !.CI = @ @@ (term :> id)]

HTerm(l, id) == IF id \in DOMAIN l.M THEN l.M[id] ELSE "??" \o id
CTerm(l, id) == IF id \in DOMAIN l.C THEN l.C[id] ELSE "??" \o id

\* compare an observed ref with the expected one, item by item
RECURSIVE MatchRef(_, _, _)
MatchRef(l, r, o) ==
  IF o.kind # r.kind THEN Fail(l, "kind", r.kind, o.kind)
  ELSE
    LET l1 == LearnC(LearnH(l, o.id, r.hid), o.cid, r.cid)
        l2 == IF r.kind = "A" THEN Expect(l1, o.mem => o.val = r.val, "val", VRepr(r.val), IF o.mem THEN VRepr(o.val) ELSE "")
              ELSE Expect(l1, o.keys = r.keys /\ Len(o.items) = Len(r.items), "items", r.keys, o.keys)
        n == IF Len(o.items) <= Len(r.items) THEN Len(o.items) ELSE Len(r.items)
    IN IF r.kind = "A" THEN l2
       ELSE FoldLeft(LAMBDA acc, j : MatchRef(acc, r.items[j], o.items[j]), l2, [j \in 1..n |-> j])

MatchRefs(l, rs, os) ==
  IF Len(rs) # Len(os) THEN Fail(l, "nout", Len(rs), Len(os))
  ELSE FoldLeft(LAMBDA acc, j : MatchRef(acc, rs[j], os[j]), l, [j \in 1..Len(rs) |-> j])
MatchVals(l, vs, os, clause) ==
  IF Len(vs) # Len(os) THEN Fail(l, "nout", Len(vs), Len(os))
  ELSE FoldLeft(LAMBDA acc, j : Expect(acc, vs[j] = os[j], clause, VRepr(vs[j]), VRepr(os[j])), l, [j \in 1..Len(vs) |-> j])

----------------------------------------------------------------------------
(* Contents of a database.  The dump lists atoms, then calls (creators      *)
(* before consumers), then shapes (items before collections).               *)
LearnAtoms(l, snap) == FoldLeft(LAMBDA acc, a : LearnC(acc, a.cid, VRepr(a.val)), l, snap.atoms)

RefTerm(l, o) == IF o.id \in DOMAIN l.M THEN l.M[o.id] ELSE "~" \o CTerm(l, o.cid)
LearnCall(l, c) ==
  LET ins == [j \in 1..Len(c.ins) |-> [n |-> c.ins[j].n, r |-> [hid |-> RefTerm(l, c.ins[j])]]]
      ch == CallHid(c.op, ins)
      l1 == FoldLeft(LAMBDA acc, j : LearnH(acc, c.ins[j].id, ins[j].r.hid), l, [j \in 1..Len(ins) |-> j])
      l2 == LearnH(l1, c.id, ch)
  IN FoldLeft(LAMBDA acc, o : LearnH(acc, o.id, OutHid(ch, o.n)), l2, c.outs)

LearnShape(l, s) ==
  IF s.id \in DOMAIN l.M THEN l
  ELSE IF s.kind = "A" THEN LearnH(l, s.id, "~" \o CTerm(l, s.cid))
  ELSE LET names == IF s.kind = "L" THEN [j \in 1..Len(s.items) |-> "elts_" \o ToString(j - 1)] ELSE s.keys
           ins == [j \in 1..Len(s.items) |-> [n |-> names[j], r |-> [hid |-> HTerm(l, s.items[j].id)]]]
           op == IF s.kind = "L" THEN "__make_list__" ELSE "__make_dict__"
       IN LearnH(l, s.id, OutHid(CallHid(op, ins), IF s.kind = "L" THEN "list" ELSE "dict"))

NamesOf(xs) == {xs[j].n : j \in 1..Len(xs)}
ByName(xs, n) == xs[CHOOSE j \in 1..Len(xs) : xs[j].n = n]
MatchSide(l, exp, got, clause) ==
  IF NamesOf(exp) # NamesOf(got) \/ Len(exp) # Len(got) THEN Fail(l, clause, NamesOf(exp), NamesOf(got))
  ELSE FoldLeft(LAMBDA acc, e : LET o == ByName(got, e.n)
                                    a1 == Expect(acc, HTerm(acc, o.id) = e.hid, clause, e.hid, HTerm(acc, o.id))
                                IN LearnC(a1, o.cid, e.cid), l, exp)
MatchCall(l, e, c) ==
  LET l1 == Expect(l, c.op = e.op, "db.op", e.op, c.op)
      l2 == MatchSide(l1, e.ins, c.ins, "db.inputs")
      l3 == MatchSide(l2, e.outs, c.outs, "db.outputs")
  IN LearnC(l3, c.cid, e.cid)

MatchShape(l, e, s) ==
  LET l1 == LearnC(l, s.cid, e.cid)
      l2 == Expect(l1, s.kind = e.kind /\ s.keys = e.keys /\ Len(s.items) = Len(e.items), "db.shape", <<e.kind, e.keys>>, <<s.kind, s.keys>>)
      n == IF Len(s.items) <= Len(e.items) THEN Len(s.items) ELSE Len(e.items)
  IN FoldLeft(LAMBDA acc, j : Expect(acc, HTerm(acc, s.items[j].id) = e.items[j].hid, "db.item", e.items[j].hid, HTerm(acc, s.items[j].id)),
              l2, [j \in 1..n |-> j])

MatchSet(l, exp, got, clause) ==
  LET l1 == Expect(l, exp \subseteq got, clause \o ".missing", exp \ got, {})
  IN Expect(l1, got \subseteq exp, clause \o ".extra", {}, got \ exp)

MatchSnap(l, E, snap, ovf) ==
  LET l1 == LearnAtoms(l, snap)
      l2 == FoldLeft(LearnCall, l1, snap.calls)
      l3 == FoldLeft(LearnShape, l2, snap.shapes)
      callTerms == {HTerm(l3, snap.calls[j].id) : j \in 1..Len(snap.calls)}
      l4 == MatchSet(l3, DOMAIN E.calls, callTerms, "db.calls")
      l5 == FoldLeft(LAMBDA acc, c : LET t == HTerm(acc, c.id) IN IF t \in DOMAIN E.calls THEN MatchCall(acc, E.calls[t], c) ELSE acc, l4, snap.calls)
      shapeTerms == {HTerm(l5, snap.shapes[j].id) : j \in 1..Len(snap.shapes)}
      l6 == MatchSet(l5, DOMAIN E.shapes, shapeTerms, "db.shapes")
      l7 == FoldLeft(LAMBDA acc, s : LET t == HTerm(acc, s.id) IN IF t \in DOMAIN E.shapes THEN MatchShape(acc, E.shapes[t], s) ELSE acc, l6, snap.shapes)
      l8 == MatchSet(l7, DOMAIN E.atoms, {CTerm(l7, snap.atoms[j].cid) : j \in 1..Len(snap.atoms)}, "db.atoms")
      l9 == FoldLeft(LAMBDA acc, a : Expect(acc, a.where = IF ovf /\ HasBig(a.val) THEN "o" ELSE "t", "db.where", VRepr(a.val), a.where), l8, snap.atoms)
      lA == Expect(l9, {E.calls[h].op : h \in DOMAIN E.calls} \subseteq ToSet(snap.ops), "db.ops", {E.calls[h].op : h \in DOMAIN E.calls}, snap.ops)
      lB == IF ~snap.isloaded THEN lA
            ELSE LET b1 == MatchSet(lA, DOMAIN E.shapes, {HTerm(lA, snap.loaded[j].id) : j \in 1..Len(snap.loaded)}, "load")
                 IN FoldLeft(LAMBDA acc, x : LET t == HTerm(acc, x.id) IN
                        IF t \in DOMAIN E.shapes THEN Expect(acc, x.val = E.shapes[t].val, "load.val", VRepr(E.shapes[t].val), VRepr(x.val)) ELSE acc,
                        b1, snap.loaded)
  IN lB

MatchSnaps(l, s, ev) ==
  FoldLeft(LAMBDA acc, sn : MatchSnap(acc, s.db[sn.db], sn, Traces[tr].ovf), l, ev.obs.snaps)

\* provenance queries on the refs a session holds
MatchQuery(l, s, ev, q) ==
  LET E == s.db[DbOf[ev.s]]
      hids == {s.hs[ev.s][j].hid : j \in ToSet(q.hs)}
      exp == CASE q.q = "creators" -> {h \in DOMAIN E.calls : \E j \in 1..Len(E.calls[h].outs) : E.calls[h].outs[j].hid \in hids}
               [] q.q = "consumers" -> {h \in DOMAIN E.calls : \E j \in 1..Len(E.calls[h].ins) : E.calls[h].ins[j].hid \in hids}
               [] q.q = "orphans" -> DOMAIN E.shapes \ Needed(E)
               [] OTHER -> {}
      got == {HTerm(l, q.ids[j]) : j \in 1..Len(q.ids)}
      l1 == MatchSet(l, exp, got, "query." \o q.q)
  IN Expect(l1, Cardinality(got) = Len(q.ids), "query.dup", Cardinality(got), Len(q.ids))

MatchQueries(l, s, ev) == FoldLeft(LAMBDA acc, q : MatchQuery(acc, s, ev, q), l, ev.obs.queries)

----------------------------------------------------------------------------
MatchOut(l, out, ev) ==
  LET o == ev.obs
      l1 == Expect(l, o.exc = out.exc, "exc", out.exc, o.exc)
      l2 == Expect(l1, o.exec = out.exec, "exec", out.exec, o.exec)
  IN IF out.exc # "" \/ o.exc # "" THEN l2
     ELSE CASE ev.ev \in {"call", "item"} ->
                 IF o.kind # out.kind THEN Fail(l2, "mode", out.kind, o.kind)
                 ELSE IF out.kind = "R" THEN MatchRefs(l2, out.refs, o.refs)
                 ELSE MatchVals(l2, out.vals, o.vals, "plain")
            [] ev.ev = "read" -> MatchVals(l2, out.vals, o.vals, "read")
            [] OTHER -> l2

\* the modes the storages report
MatchModes(l, s, ev) ==
  Expect(l, \A j \in 1..Len(ev.obs.modes) : ev.obs.modes[j].mode = CurMode(s, ev.p, ev.obs.modes[j].s), "modes",
         s.ctx, ev.obs.modes)

Judge(l, r, ev) ==
  MatchModes(MatchQueries(MatchSnaps(MatchOut(l, r.out, ev), r.st, ev), r.st, ev), r.st, ev)

\* Events after which more than one state is allowed by the specification
\* (a commit that does not complete may leave large values behind, outside the
\* database, that nothing refers to)
Stray(s, ev) ==
  LET d == DbOf[ev.s]
      seen == UNION {{VRepr(ev.obs.snaps[j].atoms[a].val) : a \in {b \in 1..Len(ev.obs.snaps[j].atoms) : ev.obs.snaps[j].atoms[b].where = "o"}}
                     : j \in {k \in 1..Len(ev.obs.snaps) : ev.obs.snaps[k].db = d}}
  IN [s EXCEPT !.db[d].atoms = Restrict1(s.pend[ev.s].atoms, seen) @@ @]
Candidates(s, ev) ==
  CASE ev.ev = "faultexit" -> <<StepExit(IF ev.obs.fired THEN Stray(s, ev) ELSE s, ev, ~ev.obs.fired)>>
    [] ev.ev = "killexit" ->
         LET after(works) == LET x == StepExit(IF works THEN s ELSE Stray(s, ev), ev, works)
                             IN [st |-> Step(x.st, [ev |-> "reopen", s |-> ev.s, p |-> ev.p]).st, out |-> Out]
         IN <<after(FALSE), after(TRUE)>>
    [] ev.ev = "faultdrop" -> IF ev.obs.fired THEN <<[st |-> s, out |-> [Out EXCEPT !.exc = "dberror"]]>>
                              ELSE <<StepDrop(s, ev)>>
    [] ev.ev = "killdrop" ->
         LET again(x) == [st |-> Step(x, [ev |-> "reopen", s |-> ev.s, p |-> ev.p]).st, out |-> Out]
         IN <<again(s), again(StepDrop(s, ev).st)>>
    [] OTHER -> <<Step(s, ev)>>

Advance(s, l, ev) ==
  LET cs == Candidates(s, ev)
      js == [j \in 1..Len(cs) |-> Judge(l, cs[j], ev)]
      good == {j \in 1..Len(cs) : js[j].f = <<>>}
      j == IF good # {} THEN CHOOSE x \in good : TRUE ELSE 1
  IN [st |-> cs[j].st, L |-> js[j], how |-> cs[j].out.how]

Sessions == DOMAIN DbOf
TInit == /\ tr \in 1..Len(Traces)
         /\ i = 0
         /\ st = Init0(DOMAIN TDbOf, {TDbOf[s] : s \in DOMAIN TDbOf}, 1..Data.procs)
         /\ L = L0
TNext ==
  /\ i < Len(Traces[tr].events)
  /\ LET ev == Traces[tr].events[i + 1]
         r == Advance(st, L, ev)
     IN /\ i' = i + 1
        /\ st' = r.st
        /\ L' = [r.L EXCEPT !.f = <<>>, !.n = IF r.how = "" THEN @ ELSE Append(@, r.how)]
        /\ (r.L.f # <<>>) => PrintT("@@FAIL " \o ToJson([trace |-> tr, event |-> i + 1, ev |-> ev.ev, fails |-> [k \in 1..Len(r.L.f) |-> <<r.L.f[k][1], ToString(r.L.f[k][2]), ToString(r.L.f[k][3])>>]]))
        /\ (i + 1 = Len(Traces[tr].events)) => PrintT("@@DONE " \o ToJson([t |-> tr, n |-> L'.n]))
  /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr, i, st, L>>
=============================================================================
