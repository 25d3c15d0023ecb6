-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Which arguments make up the identity of a memoized call (P05).          *)
(*                                                                         *)
(* A signature is [params, ign, ver]: params is a sequence of              *)
(* [name, kind, def, tok, utok] with kind "po" (positional only), "pk"           *)
(* (positional or keyword), "vp" ( *args ), "ko" (keyword only), "vk"      *)
(* ( **kw ); def is "none", "plain", "nad" (NewArgDefault) or "ign" (a     *)
(* default wrapped in Ignore); ign is the sequence of declared ignored     *)
(* names and ver the version of the op.                                    *)
(* An argument is [w, t, s, u]: w = "no" or "ign" (wrapped in Ignore), t   *)
(* the token of its content (the name, for a ValuePointer), s its history  *)
(* ("raw" or the history of the result it is), u what the function gets    *)
(* for it (the object, for a ValuePointer).  A call is [pos, kw]: a sequence of arguments and a      *)
(* sequence of [name, arg].                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyFun == [x \in {} |-> 0]
Elems(q) == {q[j] : j \in DOMAIN q}

\* parameters that positional arguments fill, in order
PosParams(sig) == SelectSeq(sig.params, LAMBDA p : p.kind \in {"po", "pk"})
Has(sig, kind) == \E j \in DOMAIN sig.params : sig.params[j].kind = kind
VarName(sig, kind) == LET j == CHOOSE j \in DOMAIN sig.params : sig.params[j].kind = kind IN sig.params[j].name
Names(sig) == {sig.params[j].name : j \in DOMAIN sig.params}
KwNames(sig) == {sig.params[j].name : j \in {k \in DOMAIN sig.params : sig.params[k].kind \in {"pk", "ko"}}}
Param(sig, n) == sig.params[CHOOSE j \in DOMAIN sig.params : sig.params[j].name = n]

(* Python's binding rules: [ok, one, vp, vk] with one: name -> argument of  *)
(* the ordinary parameters (defaults applied, [w |-> "def"...]), vp the     *)
(* extra positional arguments and vk the extra keyword arguments.           *)
DefArg(p) == [w |-> IF p.def = "ign" THEN "ign" ELSE "no", t |-> p.tok, s |-> "raw", u |-> p.utok]
Bind(sig, call) ==
  LET pp == PosParams(sig)
      np == Len(call.pos)
      nf == IF np < Len(pp) THEN np ELSE Len(pp)
      filled == {pp[j].name : j \in 1..nf}
      kwn == {call.kw[j].name : j \in DOMAIN call.kw}
      direct == kwn \cap KwNames(sig)
      extra == kwn \ KwNames(sig)
      ordinary == {sig.params[j].name : j \in {k \in DOMAIN sig.params : sig.params[k].kind \in {"po", "pk", "ko"}}}
      missing == {n \in ordinary \ (filled \cup direct) : Param(sig, n).def = "none"}
      ok == /\ np <= Len(pp) \/ Has(sig, "vp")
            /\ filled \cap direct = {}
            /\ extra = {} \/ Has(sig, "vk")
            /\ missing = {}
      kwarg(n) == call.kw[CHOOSE j \in DOMAIN call.kw : call.kw[j].name = n].arg
  IN [ok |-> ok,
      one |-> IF ~ok THEN EmptyFun
              ELSE [n \in ordinary |-> IF n \in filled THEN call.pos[CHOOSE j \in 1..nf : pp[j].name = n]
                                       ELSE IF n \in direct THEN kwarg(n) ELSE DefArg(Param(sig, n))],
      vp |-> IF ok /\ np > Len(pp) THEN SubSeq(call.pos, Len(pp) + 1, np) ELSE <<>>,
      vk |-> IF ok THEN [n \in extra |-> kwarg(n)] ELSE EmptyFun]

(* Is the bound argument of an ordinary parameter left out of the identity? *)
IgnoredOne(sig, n, a) ==
  \/ n \in Elems(sig.ign)
  \/ a.w = "ign"
  \/ Param(sig, n).def = "nad" /\ a.t = Param(sig, n).tok
IgnoredVp(sig, a) == a.w = "ign" \/ VarName(sig, "vp") \in Elems(sig.ign)
IgnoredVk(sig, n, a) ==
  \/ a.w = "ign" \/ VarName(sig, "vk") \in Elems(sig.ign)
  \/ n \in Elems(sig.ign) /\ n \notin Names(sig)

(* The arguments in the identity: <<role, name, content, history>>.         *)
Counted(sig, b) ==
     {<<"one", n, b.one[n].t, b.one[n].s>> : n \in {m \in DOMAIN b.one : ~IgnoredOne(sig, m, b.one[m])}}
  \cup {<<"vp", ToString(j), b.vp[j].t, b.vp[j].s>> : j \in {k \in DOMAIN b.vp : ~IgnoredVp(sig, b.vp[k])}}
  \cup {<<"vk", n, b.vk[n].t, b.vk[n].s>> : n \in {m \in DOMAIN b.vk : ~IgnoredVk(sig, m, b.vk[m])}}

\* identity by content (is the call executed?) and by history (is it the same call?)
Content(op, sig, b) == <<op, sig.ver, {<<x[1], x[2], x[3]>> : x \in Counted(sig, b)}>>
History(op, sig, b) == <<op, sig.ver, Counted(sig, b)>>

\* what the function must receive, whatever is ignored
Received(sig, b) == [one |-> [n \in DOMAIN b.one |-> b.one[n].u],
                     vp |-> [j \in DOMAIN b.vp |-> b.vp[j].u],
                     vk |-> [n \in DOMAIN b.vk |-> b.vk[n].u]]
=============================================================================
