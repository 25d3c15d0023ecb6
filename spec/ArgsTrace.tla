------------------------------ MODULE ArgsTrace ------------------------------
(***************************************************************************)
(* Checks recorded calls of the real code against Args: which were         *)
(* executed, what the body received, what was returned, which results are  *)
(* the same reference, and which inputs were recorded.                     *)
(***************************************************************************)
EXTENDS Args, Json, IOUtils
VARIABLES tr, i, st

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
S0 == [sig |-> EmptyFun,      \* op -> current signature
       rec |-> EmptyFun,      \* content identity -> what the recorded execution received
       hid |-> EmptyFun,      \* history identity -> observed id of the result
       cid |-> EmptyFun,      \* result -> observed content id
       inn |-> EmptyFun,      \* <<op, counted argument>> -> name recorded for it
       n |-> <<0, 0, 0>>]     \* executed, served, rejected
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Chk(c, name, exp, got) == IF c THEN {} ELSE {<<name, ToString(exp), ToString(got)>>}

FunOf(rows) == [n \in {rows[j][1] : j \in DOMAIN rows} |-> rows[CHOOSE j \in DOMAIN rows : rows[j][1] = n][2]]
ObsRecv(o) == [one |-> FunOf(o.one), vp |-> o.vp, vk |-> FunOf(o.vk)]

\* <<new state, failures>>
Call(s, e) ==
  LET sig == s.sig[e.op]
      b == Bind(sig, e)
      recv == Received(sig, b)
      key == Content(e.op, sig, b)
      hkey == History(e.op, sig, b)
      known == key \in DOMAIN s.rec
      o == e.obs
      ran == [j \in DOMAIN o.ran |-> ObsRecv(o.ran[j])]
      served == IF known THEN s.rec[key] ELSE recv
  IN IF ~b.ok THEN <<[s EXCEPT !.n[3] = @ + 1],
                     Chk(o.exc = "TypeError", "badcall.exc", "TypeError", o.exc) \cup Chk(ran = <<>>, "badcall.ran", <<>>, ran)>>
     ELSE IF e.mode # "run" THEN
       <<s, Chk(o.exc = "", "exc", "", o.exc) \cup Chk(ran = <<recv>>, "noop.received", <<recv>>, ran)
            \cup Chk(o.exc # "" \/ ObsRecv(o.val) = recv, "noop.val", recv, o.val)
            \cup Chk(o.hid = "", "noop.wrapped", "", o.hid)>>
     ELSE IF ~known /\ ~e.new THEN
       <<s, Chk(o.exc # "", "disallowed.exc", "RuntimeError", o.exc) \cup Chk(ran = <<>>, "disallowed.ran", <<>>, ran)>>
     ELSE
       LET exec == Chk(Len(ran) = (IF known THEN 0 ELSE 1), "exec", IF known THEN "served" ELSE "executed", Len(ran))
           rcv == Chk(ran = <<>> \/ ran[1] = recv, "received", recv, ran)
           val == Chk(ObsRecv(o.val) = served, "val", served, o.val)
           hid == IF hkey \in DOMAIN s.hid THEN Chk(s.hid[hkey] = o.hid, "hid", hkey, o.hid)
                  ELSE Chk(\A k \in DOMAIN s.hid : s.hid[k] # o.hid, "hid-dup", hkey, o.hid)
           cnt == Counted(sig, b)
           ins == Chk(Len(o.ins) = Cardinality(cnt), "inputs.number", cnt, o.ins)
                  \cup Chk({<<o.ins[j][2]>> : j \in DOMAIN o.ins} = {<<x[3]>> : x \in cnt}, "inputs.values", cnt, o.ins)
                  \cup Chk(\A x \in cnt : x[1] # "one" \/ \E j \in DOMAIN o.ins : o.ins[j][1] = x[2] /\ o.ins[j][2] = x[3], "inputs.names", cnt, o.ins)
           calls == Chk(o.ncalls = Cardinality({k \in DOMAIN s.hid \cup {hkey} : k[1] = e.op}), "calls.number", Cardinality(DOMAIN s.hid \cup {hkey}), o.ncalls)
       IN IF o.exc # "" THEN <<s, {<<"exc", "", o.exc>>}>>
          ELSE <<[s EXCEPT !.rec = IF known THEN @ ELSE Put(@, key, recv),
                           !.hid = Put(@, hkey, o.hid),
                           !.n = IF known THEN [@ EXCEPT ![2] = @ + 1] ELSE [@ EXCEPT ![1] = @ + 1]],
                 exec \cup rcv \cup val \cup hid \cup ins \cup calls>>

Apply(s, e) ==
  IF e.exc # "" THEN <<s, {<<"exc", "", e.exc>>}>>
  ELSE IF e.ev = "def" THEN <<[s EXCEPT !.sig = Put(@, e.op, e.sig)], {}>>
  ELSE IF e.ev = "call" THEN Call(s, e)
  ELSE <<s, {}>>      \* reopen, forget: nothing the specification can see changes

Init == tr \in DOMAIN Traces /\ i = 1 /\ st = S0
Next == /\ i <= Len(Traces[tr].events)
        /\ LET e == Traces[tr].events[i]
               r == Apply(st, e)
           IN /\ st' = r[1]
              /\ IF r[2] = {} THEN TRUE
                 ELSE PrintT("@@FAIL " \o ToJson([trace |-> tr, event |-> i, ev |-> e.ev, fails |-> r[2]]))
              /\ IF i = Len(Traces[tr].events) THEN PrintT("@@DONE " \o ToJson([t |-> tr, n |-> r[1].n])) ELSE TRUE
        /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Next]_<<tr, i, st>>
=============================================================================
