------------------------------ MODULE MC_Stack ------------------------------
(***************************************************************************)
(* Stacking as a machine: fibers start high above the floor and fall, one  *)
(* at a time and in any order, until they touch the floor or a fiber       *)
(* connected below them.  Whatever the order, they come to rest at the     *)
(* least admissible heights, each of them supported.  For every set of     *)
(* connections of n fibers and every choice of thicknesses.                *)
(***************************************************************************)
EXTENDS Stacking
CONSTANTS N,          \* number of fibers
          Grid        \* heights (in halves) to be searched for other rest states, 0 for none
VARIABLES h, R, z
vars == << h, R, z >>

Thin == {RInt(1), RInt(3)}
AllPairs == {p \in (1 .. N) \X (1 .. N) : p[1] < p[2]}
Start == [i \in 1 .. N |-> RInt(10 * i)]
Init == h \in [1 .. N -> Thin] /\ R \in SUBSET AllPairs /\ z = Start

Below(i) == {p[1] : p \in {p \in R : p[2] = i}}
Rest(i) == RMaxSeq(<< Half(h[i]) >> \o [j \in 1 .. N |-> IF j \in Below(i) THEN z[j] \oplus Gap(h[j], h[i]) ELSE RInt(0)])
Fall(i) == Rest(i) \prec z[i] /\ z' = [z EXCEPT ![i] = Rest(i)] /\ UNCHANGED << h, R >>
Next == \E i \in 1 .. N : Fall(i)

AtRest == \A i \in 1 .. N : ~(Rest(i) \prec z[i])
Least == LeastHeights(h, R)
Sound ==
  /\ Admissible(z, h, R)
  /\ \A i \in 1 .. N : Least[i] \preceq z[i]
  /\ AtRest <=> Supported(z, h, R)
  /\ AtRest => \A i \in 1 .. N : REq(z[i], Least[i])
(* No other heights are admissible and supported.                          *)
Unique ==
  (Grid > 0 /\ z = Start) =>
     \A y \in [1 .. N -> 1 .. Grid] :
        LET q == TLCEval([i \in 1 .. N |-> Q(y[i], 2)]) IN
        (Admissible(q, h, R) /\ Supported(q, h, R)) => \A i \in 1 .. N : REq(q[i], Least[i])
(* The weights of the fibers are carried to the floor: forces which follow *)
(* any choice of supports balance every fiber and the whole stack.         *)
Support(i) ==
  LET S == {j \in Below(i) : REq(z[i], z[j] \oplus Gap(h[j], h[i]))}
  IN  IF REq(z[i], Half(h[i])) THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
RECURSIVE Carried(_)
Carried(i) == 1 + LET S == {j \in i + 1 .. N : Support(j) = i}
                      RECURSIVE Sum(_)
                      Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Carried(x) + Sum(X \ {x})
                  IN  Sum(S)
FloorLoad == LET S == {i \in 1 .. N : Support(i) = 0}
                 RECURSIVE Sum(_)
                 Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Carried(x) + Sum(X \ {x})
             IN  Sum(S)
Balanced == AtRest => FloorLoad = N
Emit == AtRest => PrintT("CASE " \o ToString(<< [i \in 1 .. N |-> h[i]], R >>))
=============================================================================
