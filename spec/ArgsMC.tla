------------------------------- MODULE ArgsMC -------------------------------
(***************************************************************************)
(* All small signatures and calls: checks that the identity defined in     *)
(* Args has the properties P05 claims, and writes the cases out to be run  *)
(* on the real code.                                                       *)
(***************************************************************************)
EXTENDS Args, Json, IOUtils, SequencesExt
VARIABLES sig, call

Thorough == "ARGS_DEEP" \in DOMAIN IOEnv

Layouts == {<<"pk">>, <<"po">>, <<"ko">>, <<"vp">>, <<"vk">>,
            <<"pk", "pk">>, <<"po", "pk">>, <<"po", "po">>, <<"pk", "ko">>, <<"pk", "vp">>, <<"pk", "vk">>, <<"po", "vk">>,
            <<"ko", "vk">>, <<"vp", "ko">>, <<"vp", "vk">>}
           \cup (IF Thorough THEN {<<"po", "pk", "ko">>, <<"pk", "vp", "ko">>, <<"pk", "ko", "vk">>, <<"po", "vp", "vk">>, <<"pk", "pk", "vk">>, <<"pk", "vp", "vk">>} ELSE {})
NameAt == <<"a", "b", "c">>
PName(kind, j) == IF kind = "vp" THEN "args" ELSE IF kind = "vk" THEN "kws" ELSE NameAt[j]
P(kind, j, d) == [name |-> PName(kind, j), kind |-> kind, def |-> IF kind \in {"vp", "vk"} THEN "none" ELSE d,
                  tok |-> "i1", utok |-> "i1", tp |-> "any"]
\* a parameter that can be filled by position needs a default if the one before it has one
Valid(ps) == \A j \in 2..Len(ps) : ps[j].kind \in {"po", "pk"} /\ ps[j-1].def # "none" => ps[j].def # "none"
Defs == {"none", "plain", "nad", "ign"}
ParamSeqs == {ps \in UNION {{[j \in 1..Len(l) |-> P(l[j], j, d[j])] : d \in [1..Len(l) -> Defs]} : l \in Layouts} : Valid(ps)}
Igns(ps) == {<<>>} \cup {<<ps[j].name>> : j \in DOMAIN ps} \cup (IF \E j \in DOMAIN ps : ps[j].kind = "vk" THEN {<<"zz">>} ELSE {})
Sigs == UNION {{[params |-> ps, ign |-> g, ver |-> 0, out |-> ""] : g \in Igns(ps)} : ps \in ParamSeqs}

A(w, t) == [w |-> w, t |-> t, s |-> "raw", u |-> t]
Args == {A("no", "i1"), A("no", "i2"), A("ign", "i2")}
PosSeqs == {<<>>} \cup {<<x>> : x \in Args} \cup {<<x, y>> : x \in {A("no", "i1"), A("no", "i2")}, y \in Args}
KwSets(names) == UNION {{SetToSeq({[name |-> n, arg |-> f[n]] : n \in S}) : f \in [S -> Args]} : S \in {T \in SUBSET names : Cardinality(T) <= 2}}
CallNames(s) == {s.params[j].name : j \in {k \in DOMAIN s.params : s.params[k].kind \in {"pk", "ko"} \/ (s.params[k].kind = "po" /\ s.params[k].def = "none")}} \cup {"zz"}
Calls(s) == [pos : PosSeqs, kw : KwSets(CallNames(s))]

Op == "f"
B == Bind(sig, call)

(***************************************************************************)
(* What P05 says about identity.                                           *)
(***************************************************************************)
\* the order of keyword arguments does not matter
OrderIrrelevant == Bind(sig, [call EXCEPT !.kw = Reverse(@)]) = B
\* neither does giving the last positional argument by keyword
AsKeyword ==
  LET n == Len(call.pos)
      pp == PosParams(sig)
  IN (B.ok /\ n > 0 /\ n <= Len(pp) /\ pp[n].kind = "pk") =>
       Bind(sig, [pos |-> SubSeq(call.pos, 1, n - 1), kw |-> Append(call.kw, [name |-> pp[n].name, arg |-> call.pos[n]])]) = B
\* giving a default explicitly (a plain one, or one that is a NewArgDefault) is the same call, received the same
ExplicitDefault ==
  \A j \in DOMAIN sig.params :
    LET p == sig.params[j]
        given == {call.kw[k].name : k \in DOMAIN call.kw} \cup {PosParams(sig)[k].name : k \in 1..(IF Len(call.pos) < Len(PosParams(sig)) THEN Len(call.pos) ELSE Len(PosParams(sig)))}
        c2 == [call EXCEPT !.kw = Append(@, [name |-> p.name, arg |-> A("no", p.tok)])]
    IN (B.ok /\ p.kind \in {"pk", "ko"} /\ p.def \in {"plain", "nad"} /\ p.name \notin given) =>
         LET b2 == Bind(sig, c2) IN b2.ok /\ Content(Op, sig, b2) = Content(Op, sig, B) /\ Received(sig, b2) = Received(sig, B)
\* every argument is received, and what is ignored never decides the identity
Change(b, n, t) == [b EXCEPT !.one[n].t = t, !.one[n].u = t]
IgnoredIrrelevant ==
  B.ok => \A n \in DOMAIN B.one :
    /\ (n \in Elems(sig.ign) \/ B.one[n].w = "ign") => Content(Op, sig, Change(B, n, "other")) = Content(Op, sig, B)
    /\ ~IgnoredOne(sig, n, B.one[n]) => Content(Op, sig, Change(B, n, "other")) # Content(Op, sig, B)
    /\ Received(sig, Change(B, n, "other")) # Received(sig, B)
\* adding a parameter with a NewArgDefault keeps the calls made before
NewParam(kind) == [name |-> "new", kind |-> kind, def |-> "nad", tok |-> "i9", utok |-> "i9", tp |-> "any"]
NewIndex(ps) == Cardinality({j \in DOMAIN ps : ps[j].kind \in {"po", "pk", "vp", "ko"}})
Evolved == LET k == NewIndex(sig.params)
           IN [sig EXCEPT !.params = SubSeq(@, 1, k) \o <<NewParam("ko")>> \o SubSeq(@, k + 1, Len(@))]
Recognised ==
  B.ok => LET b2 == Bind(Evolved, call)
              c3 == [call EXCEPT !.kw = Append(@, [name |-> "new", arg |-> A("no", "other")])]
          IN /\ b2.ok /\ Content(Op, Evolved, b2) = Content(Op, sig, B)
             /\ Content(Op, Evolved, Bind(Evolved, c3)) # Content(Op, sig, B)

Lemmas == OrderIrrelevant /\ AsKeyword /\ ExplicitDefault /\ IgnoredIrrelevant /\ Recognised

\* the slice of the signatures that is written out
Slice ==  atoi(IOEnv.ARGS_SLICE)
Slices ==  atoi(IOEnv.ARGS_SLICES)
SigSeq == SetToSeq(Sigs)
ASSUME "ARGS_OUT" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.ARGS_OUT, [j \in 1..((Len(SigSeq) + Slices - 1 - Slice) \div Slices) |->
     LET s == SigSeq[(j - 1) * Slices + Slice + 1] IN [sig |-> s, calls |-> SetToSeq(Calls(s))]])

Init == sig \in Sigs /\ call \in Calls(sig)
Next == UNCHANGED <<sig, call>>
Spec == Init /\ [][Next]_<<sig, call>>
=============================================================================
