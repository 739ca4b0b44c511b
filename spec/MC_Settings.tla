---------------------------- MODULE MC_Settings ----------------------------
(***************************************************************************)
(* All short histories of edits of two settings of the panel.  The state   *)
(* machine of module Settings is compared with the history itself: a       *)
(* setting reads as what was last written to it, or as switched off if the *)
(* last word on its switch was "off"; nothing else matters.                *)
(***************************************************************************)
EXTENDS Settings, TLC, IOUtils
CONSTANTS Depth, Pairs0
Claim == IOEnv.CLAIM
pi == Q(22, 7)

PairList == << << "lmin", "lmax" >>, << "shear", "tensile" >>, << "seed", "interp_size" >>,
               << "threshold", "n" >>, << "theta", "periodic" >>, << "itermax", "tol" >>,
               << "verbose", "packing" >> , << "coupling", "size" >>, << "length", "width" >> >>
AllPairs == DOMAIN PairList
SomePairs == 1 .. 6

VARIABLES pair, args, hist, st
vars == << pair, args, hist, st >>

(* Values are coded: -1 is off (or the default at the beginning).          *)
Off == -1
Decode(name, v) ==
  IF name \in Flags THEN v # 0
  ELSE IF v = Off THEN IF name \in Moduli THEN RInf ELSE "null"
  ELSE RInt(v)
Values(name) == IF name \in Switched THEN {Off, 0, 3} ELSE {0, 3}
Mine == {PairList[pair][1], PairList[pair][2]}
Default(name) ==
  CASE name \in Flags -> TRUE [] name \in Optional -> "null" [] name \in Moduli -> RInf [] OTHER -> RInt(1)
Args == [k \in Names |-> IF k \in Mine /\ args[CHOOSE i \in 1 .. 2 : PairList[pair][i] = k] # -2
                         THEN Decode(k, args[CHOOSE i \in 1 .. 2 : PairList[pair][i] = k]) ELSE Default(k)]
Shown == [k \in Switched |-> RInt(7)]

Init == /\ pair \in Pairs0
        /\ args \in {<< -2, -2 >>} \cup (Values(PairList[pair][1]) \X Values(PairList[pair][2]))
        /\ hist = << >>
        /\ st = Initial(Args, Shown)
(* Edits: << kind, name, value, name, value >>.                            *)
Do(h) ==
  /\ hist' = Append(hist, h)
  /\ st' = TLCEval(Edited(st, CASE h[1] = "set"    -> [kind |-> "set", pairs |-> << << h[2], Decode(h[2], h[3]) >> >>]
                     [] h[1] = "call"   -> [kind |-> "set", pairs |-> << << h[2], Decode(h[2], h[3]) >>,
                                                                         << h[4], Decode(h[4], h[5]) >> >>]
                     [] h[1] = "switch" -> [kind |-> "switch", name |-> h[2], value |-> h[3] # 0]
                     [] OTHER           -> [kind |-> "field", name |-> h[2], value |-> Decode(h[2], h[3])]))
  /\ UNCHANGED << pair, args >>
Next ==
  /\ Len(hist) < Depth
  /\ \E k \in Mine :
       \/ \E v \in Values(k) : Do(<< "set", k, v, "", 0 >>)
       \/ k \in Switched /\ \E b \in {0, 1} : Do(<< "switch", k, b, "", 0 >>)
       \/ \E v \in {0, 3} : Do(<< "field", k, v, "", 0 >>)
       \/ \E l \in Mine \ {k} : \E v \in {Off, 0} : \E w \in {3} :
            (v = Off => k \in Switched) /\ Do(<< "call", k, v, l, w >>)

(*---------------------------------------------------- read off the history *)
(* Assignments and clicks as a sequence <<what, name, value>>.             *)
RECURSIVE Flat(_)
Flat(h) == IF h = << >> THEN << >>
           ELSE (IF Head(h)[1] = "call" THEN << << "set", Head(h)[2], Head(h)[3] >>, << "set", Head(h)[4], Head(h)[5] >> >>
                 ELSE << << Head(h)[1], Head(h)[2], Head(h)[3] >> >>) \o Flat(Tail(h))
Last0(h, P(_)) == LET S == {k \in DOMAIN h : P(h[k])} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Expected(name) ==
  LET h == Flat(hist)
      v == Last0(h, LAMBDA x : x[2] = name /\ x[1] \in {"set", "field"} /\ x[3] # Off)
      w == Last0(h, LAMBDA x : x[2] = name /\ x[1] \in {"set", "switch"})
      start == Args[name]
      value == IF v # 0 THEN Limited(name, Decode(name, h[v][3]))
               ELSE IF name \in Switched /\ OffValue(name, start) THEN Shown[name] ELSE Limited(name, start)
      off == IF w = 0 THEN OffValue(name, start)
             ELSE IF h[w][1] = "switch" THEN h[w][3] = 0 ELSE h[w][3] = Off
  IN  IF name \in Switched /\ off THEN (IF name \in Moduli THEN RInf ELSE "null")
      ELSE IF name = "theta" THEN value \otimes pi
      ELSE IF name = "itermax" THEN RInt(RFloor(value)) ELSE value

Historical == \A k \in Names : SameValue(k, Reads(st, k, pi), Expected(k))
View == [k \in Names |-> Reads(st, k, pi)]
Seen == [read |-> View, kw |-> View, fields |-> st.val, switches |-> st.on, disabled |-> [k \in Switched |-> ~st.on[k]], intType |-> TRUE]
Sharp ==
  LET e == TLCEval(Seen) IN
  /\ Observed(st, e, pi) = {}
  /\ \A k \in Mine :
       /\ \A v \in Values(k) \cup {0, 3} :
            LET x == Decode(k, v) IN
            ~SameValue(k, x, e.read[k]) =>
               /\ Observed(st, [e EXCEPT !.read = [e.read EXCEPT ![k] = x]], pi) # {}
               /\ Observed(st, [e EXCEPT !.kw = [e.kw EXCEPT ![k] = x]], pi) # {}
       /\ k \in Switched => /\ Observed(st, [e EXCEPT !.disabled[k] = ~@], pi) # {}
                           /\ Observed(st, [e EXCEPT !.switches[k] = ~@], pi) # {}
                           /\ Observed(st, [e EXCEPT !.fields[k] = @ \oplus 1], pi) # {}
Emit == Len(hist) = Depth => PrintT("CASE " \o ToString(<< PairList[pair], args, hist >>))
=============================================================================
