------------------------------ MODULE MC_Parts ------------------------------
(***************************************************************************)
(* Unconnected parts (C40) on the executable reference: a bridge of four   *)
(* fibers and, far away, a pile of crossing fibers (or a second bridge),   *)
(* labelled one after the other or in turns; alone, their fibers may be    *)
(* described from their other ends (C41).  The reference for each part  *)
(* alone and for the whole must obey the law; Faults are those of a chain  *)
(* in which parts do feel each other, and the law must tell all of them:    *)
(* it is not too weak.  The cases are printed and replayed into the real library.     *)
(***************************************************************************)
EXTENDS Parts, IOUtils
R == INSTANCE Pipeline

CONSTANT Rich
pi4 == Q(11, 14)

VARIABLES rows, turn, fault, bad, done
vars == << rows, turn, fault, bad, done >>

AxisDir == << << 1, 0, 0 >>, << 0, 1, 0 >>, << -1, 0, 0 >>, << 0, -1, 0 >> >>
(* Fibers are << x, y, axis, l, h / 2, E, part >>.                         *)
FiberRow(f, i) ==
  LET d == AxisDir[f[3] + 1]
  IN  << RInt(f[4]), RInt(1), Q(f[5], 2), RInt(f[1]), RInt(f[2]), RInt(i),
         RInt(d[1]), RInt(d[2]), RInt(d[3]), RInt(2), RInt(f[6]) >>
SetOf(fs) == R!FiberTable(TLCEval([i \in DOMAIN fs |-> FiberRow(fs[i], i)]), RInt(80))
Bridge(s, h, k, E, x, p) == << << x + s, 0, 1, 8, h, E, p >>, << x + 3, 0, 1, 8, 2, E, p >>,
                               << x, 0, 0, 16, k, E, p >>, << x, 0, 1, 8, 2, E, p >> >>
Pile(n, h) == TLCEval([i \in 1 .. n |-> << 19 + i, 10, i % 2, 6, h, 50, 2 >>])
Firsts == {Bridge(s, h, k, 60, -20, 1) : s \in IF Rich THEN {-3, -2} ELSE {-3}, h \in {2, 1},
             k \in IF Rich THEN {2, 3} ELSE {3}}
Seconds == {Pile(n, h) : n \in IF Rich THEN 1 .. 3 ELSE {1, 2}, h \in {1, 2}}
           \cup (IF Rich THEN {Bridge(-2, h, 2, 30, 20, 2) : h \in {1, 2}} ELSE {})
(* The fibers of two parts, one after the other, or in turns.              *)
Merged(a, b, turns) ==
  IF ~turns THEN a \o b
  ELSE LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
           z == [i \in 1 .. 2 * m |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] ELSE a[i \div 2]]
       IN  z \o SubSeq(a, m + 1, Len(a)) \o SubSeq(b, m + 1, Len(b))

Options == [lmin |-> Q(1, 100), lmax |-> "null", coupling |-> Q(99, 100), packing |-> Q(3, 2),
            itermax |-> 6, tol |-> E6, errtol |-> E6, size |-> "null", mayJam |-> TRUE]
Packed(T0, o) ==
  LET N == TLCEval(R!NetOf(T0, FALSE))
      T == TLCEval(R!Settled(T0, N))
      S == TLCEval(R!StackOf(T, N, "null"))
      M == TLCEval(R!MeshOf(S))
  IN  [T |-> T, N |-> N, S |-> S, M |-> M, run |-> R!RunOf(T, M, o, pi4)]
Labels(p) == SelectSeq([i \in DOMAIN rows |-> i - 1], LAMBDA l : rows[l + 1][7] = p)
Turned(l) == turn = "all" \/ (turn = "odd" /\ l % 2 = 1)
Alone(p) ==
  LET m == Labels(p)
      row(l) == LET f == rows[l + 1] IN FiberRow(IF Turned(l) THEN [f EXCEPT ![3] = (f[3] + 2) % 4] ELSE f, l + 1)
  IN  Packed(R!FiberTable(TLCEval([i \in DOMAIN m |-> row(m[i])]), RInt(80)), [Options EXCEPT !.packing = RInt(2)])

(* What a chain may do wrong to the whole.                                 *)
Faults == {"height", "link", "lost", "beam", "soft", "bound", "bent", "pressed"}
Broken(w) ==
  LET n == Len(w.run.steps)  u == w.run.steps[n].u  f == w.run.steps[n].f
      End(s) == [w EXCEPT !.run.steps[n] = s]
  IN CASE fault = "none"   -> w
       [] fault = "height" -> [w EXCEPT !.T.c["z"][1] = w.T.c["z"][1] \oplus 1]
       [] fault = "link"   -> [w EXCEPT !.N.c["B"][1] = w.T.len - 1]
       [] fault = "lost"   -> [w EXCEPT !.S = R!RowTable(Tail(R!Rows(w.S, NetCols)), NetCols, {"A", "B"}, w.S.attrs, "Stack")]
       [] fault = "beam"   -> [w EXCEPT !.M.c["beam"][1] = 0]
       [] fault = "soft"   -> [w EXCEPT !.run.y.K.val = TLCEval([q \in DOMAIN w.run.y.K.val |->
                                  w.run.y.K.val[q] \otimes Q(9, 10)])]
       [] fault = "bound"  -> [w EXCEPT !.run.y.H0[1] = w.run.y.H0[1] \oplus 1]
       [] fault = "bent"   -> End([w.run.steps[n] EXCEPT !.u = TLCEval([d \in DOMAIN u |-> u[d] \oplus Q(1, 10)])])
       [] fault = "pressed" -> End([w.run.steps[n] EXCEPT !.f = TLCEval([q \in DOMAIN f |-> f[q] \oplus 1])])

Law ==
  LET w == TLCEval(Broken(Packed(SetOf(rows), Options)))
      found == UNION {LET a == Alone(p) IN
                 PartLaw(a.T, a.N, a.S, a.M, a.run, w.T, w.N, w.S, w.M, w.run, Labels(p),
                         TLCEval([i \in DOMAIN Labels(p) |-> Turned(Labels(p)[i])]), Options) : p \in 1 .. 2}
  IN  IF fault = "none" THEN found \cup Chk("moves", Len(w.run.steps) > 1)
      ELSE Chk("not told: " \o fault, found # {})

Init == /\ fault \in {"none"} \cup Faults
        /\ \E a \in Firsts, b \in Seconds, t \in BOOLEAN : 
             rows = TLCEval(Merged(a, b, t)) /\ (fault # "none" => t /\ Len(b) = 2)
        /\ turn \in IF fault = "none" THEN {"none", "odd", "all"} ELSE {"none", "odd"}
        /\ bad = {} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ bad' = TLCEval(Law) /\ UNCHANGED << rows, turn, fault >>
Sound == bad = {}
Emit == done /\ fault = "none" => PrintT("CASE " \o ToString(<< rows, turn >>))
=============================================================================
