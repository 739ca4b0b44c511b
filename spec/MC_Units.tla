------------------------------ MODULE MC_Units ------------------------------
(***************************************************************************)
(* The whole chain in two systems of units and two frames (C36): bridges   *)
(* of four fibers are packed as they are, and with all lengths multiplied  *)
(* by lam, all moduli by mu, in the same, a mirrored or a turned box.  The *)
(* executable reference must obey the law which relates the two histories. *)
(* All cases are printed and replayed into the real library.               *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils

CONSTANT Rich
pi4 == Q(11, 14)

VARIABLES rows, tr, bad, done
vars == << rows, tr, bad, done >>

AxisDir == << << 1, 0, 0 >>, << 0, 1, 0 >>, << -1, 0, 0 >>, << 0, -1, 0 >> >>
FiberRow(f, i) ==
  LET d == AxisDir[f[3] + 1]
  IN  << RInt(f[4]), RInt(1), Q(f[5], 2), RInt(f[1]), RInt(f[2]), RInt(i),
         RInt(d[1]), RInt(d[2]), RInt(d[3]), RInt(2), RInt(f[6]) >>
SetOf(fs) == FiberTable(TLCEval([i \in DOMAIN fs |-> FiberRow(fs[i], i)]), RInt(20))
Bridges == {<< << s1, 0, 1, 8, h, E >>, << s2, 0, 1, 8, 2, E >>,
               << 0, 0, 0, 16, k, E >>, << p, 0, 1, 8, 2, E >> >> :
              s1 \in {-3, -2}, s2 \in IF Rich THEN {2, 3} ELSE {3}, h \in {2, 1},
              k \in IF Rich THEN {2, 3} ELSE {3}, p \in IF Rich THEN {-1, 0, 1} ELSE {0, 1},
              E \in IF Rich THEN {20, 100} ELSE {60}}
(* << numerator and denominator of lam, of mu, frame >>                    *)
Changes == {<< a, b, c, d, f >> : a \in {1, 3}, b \in {1, 2}, c \in {1, 7}, d \in {1, 5},
              f \in {"none", "mirror", "turn"}}
Few == {<< 3, 1, 1, 1, "none" >>, << 1, 2, 7, 1, "mirror" >>, << 3, 2, 1, 5, "turn" >>, << 1, 1, 7, 5, "none" >>}

(* Columns l, b, h, x, y, z, u, v, w, G, E of a fiber in the other units.  *)
Moved(r, lam, mu, f) ==
  LET x == lam \otimes r[4]  y == lam \otimes r[5]
      p == CASE f = "none" -> << x, y, r[7], r[8] >>
             [] f = "mirror" -> << RNeg(x), y, RNeg(r[7]), r[8] >>
             [] f = "turn" -> << RNeg(y), x, RNeg(r[8]), r[7] >>
  IN  << lam \otimes r[1], lam \otimes r[2], lam \otimes r[3], p[1], p[2], lam \otimes r[6],
         p[3], p[4], r[9], mu \otimes r[10], mu \otimes r[11] >>
OtherSet(fs, t) ==
  LET lam == Q(t[1], t[2])  mu == Q(t[3], t[4]) IN
  FiberTable(TLCEval([i \in DOMAIN fs |-> Moved(FiberRow(fs[i], i), lam, mu, t[5])]), 20 \otimes lam)

Options(lam) == [lmin |-> Q(1, 100) \otimes lam, lmax |-> "null", coupling |-> Q(99, 100), packing |-> Q(3, 2),
                 itermax |-> 5, tol |-> E6 \otimes lam, errtol |-> E6, size |-> "null", mayJam |-> FALSE]
Packed(T0, lam) ==
  LET N == NetOf(T0, FALSE)
      T == TLCEval(Settled(T0, N))
      M == TLCEval(MeshOf(StackOf(T, N, "null")))
  IN  [T |-> T, M |-> M, run |-> RunOf(T, M, Options(lam), pi4)]

Law ==
  LET lam == Q(tr[1], tr[2])  mu == Q(tr[3], tr[4])
      P == Packed(SetOf(rows), RInt(1))  S == Packed(OtherSet(rows, tr), lam)
  IN  HeightsInUnits(P.T, S.T, lam) \cup InOtherUnits(P.run.y, P.run.steps, S.run.steps, lam, mu, E6)
      \cup WorkLaw(S.T, S.M, S.run.y, S.run.steps)
      \cup Chk("moves", Len(P.run.steps) > 1)

Init == rows \in Bridges /\ tr \in (IF Rich THEN Changes ELSE Few) /\ bad = {} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ bad' = TLCEval(Law) /\ UNCHANGED << rows, tr >>
Sound == bad = {}
Emit == done => PrintT("CASE " \o ToString(<< rows, tr >>))
=============================================================================
