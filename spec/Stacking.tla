------------------------------ MODULE Stacking ------------------------------
(***************************************************************************)
(* Stacking by gravity.  Heights z of the fibers 0 .. n-1 are sequences;   *)
(* rows of a network are given by their pairs A <= B, h is the thickness.  *)
(***************************************************************************)
EXTENDS Network

Gap(hA, hB) == Half(hA \oplus hB)

(*------------------------------------------------------- abstract heights *)
(* z is admissible for the connections R (a set of pairs).                 *)
Admissible(z, h, R) ==
  /\ \A i \in DOMAIN h : Half(h[i]) \preceq z[i]
  /\ \A p \in R : (z[p[1]] \oplus Gap(h[p[1]], h[p[2]])) \preceq z[p[2]]
(* Every fiber lies on the floor or on a fiber connected below it.         *)
Supported(z, h, R) ==
  \A i \in DOMAIN h : \/ REq(z[i], Half(h[i]))
                      \/ \E p \in R : p[2] = i /\ REq(z[i], z[p[1]] \oplus Gap(h[p[1]], h[i]))
(* The least admissible heights (R has pairs p with p[1] < p[2]).          *)
LeastHeights(h, R) ==
  LET n == Len(h)
      RECURSIVE Z(_)
      Z(k) == IF k = 0 THEN << >>
              ELSE LET z == Z(k - 1)
                       below == {p[1] : p \in {p \in R : p[2] = k}}
                   IN  Append(z, RMaxSeq(<< Half(h[k]) >> \o
                         [j \in 1 .. k - 1 |-> IF j \in below THEN z[j] \oplus Gap(h[j], h[k])
                                               ELSE RInt(0)]))
  IN  Z(n)

(*--------------------------------------------------------- on real tables *)
StackTol == E6
Inner(N) == {k \in 1 .. N.len : N.c["A"][k] # N.c["B"][k]}
RowGap(T, N, k) == Gap(At(T, "h", N.c["A"][k]), At(T, "h", N.c["B"][k]))

(* C11: T is the fiber set after stacking, N the network given, S the      *)
(* stack that is returned.                                                 *)
NonPenetration(T, N, S, inPlane) ==
  IF ~(NetShaped(T, N) /\ NetShaped(T, S)) THEN {"shape"}
  ELSE UNION {
    Chk("below the floor", \A i \in 0 .. T.len - 1 :
          (Half(At(T, "h", i)) \ominus StackTol) \preceq At(T, "z", i)),
    Chk("penetration", \A k \in Inner(N) :
          ((At(T, "z", N.c["A"][k]) \oplus RowGap(T, N, k)) \ominus StackTol)
             \preceq At(T, "z", N.c["B"][k])),
    Chk("penetration in the returned stack", inPlane => \A k \in Inner(S) :
          ((S.c["zA"][k] \oplus RowGap(T, S, k)) \ominus StackTol) \preceq S.c["zB"][k]) }

(* C12 *)
Lowest(T, N) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE LET touching == {N.c["B"][k] : k \in {k \in Inner(N) :
                          At(T, "z", N.c["B"][k]) \preceq
                            ((At(T, "z", N.c["A"][k]) \oplus RowGap(T, N, k)) \oplus StackTol)}}
           grounded == {i \in 0 .. T.len - 1 :
                          At(T, "z", i) \preceq (Half(At(T, "h", i)) \oplus StackTol)}
       IN  Chk("unsupported fiber", touching \cup grounded = 0 .. T.len - 1)

(* C13: T0, T fiber set before and after; N, N1 network before and after.  *)
OnlyVertical(T0, T, N, N1, S, threshold) ==
  IF ~(Shaped(T, FiberCols) /\ NetShaped(T, S) /\ NetShaped(T, N)) THEN {"shape"}
  ELSE UNION {
    Chk("fiber labels", T0.index = T.index /\ T0.len = T.len),
    Chk("fiber data", \A c \in Range(FiberCols) \ {"z"} : SameCol(T0, T, c)),
    Chk("fiber columns", Range(T0.cols) = Range(T.cols)),
    Chk("fiber attributes", T0.attrs = T.attrs),
    Chk("network modified", SameTable(N, N1)),
    Chk("stack attributes", S.attrs = N.attrs),
    Chk("stack connections", threshold \/
          (S.len = N.len /\ SameCol(S, N, "A") /\ SameCol(S, N, "B") /\ Labelled(S))),
    Chk("in-plane data", threshold \/
          \A c \in {"sA", "sB", "xA", "yA", "xB", "yB"} : CloseSeq(S.c[c], N.c[c], E9)),
    Chk("node heights", \A k \in 1 .. S.len :
          /\ Close(S.c["zA"][k], At(T, "z", S.c["A"][k]) \oplus
                     (S.c["sA"][k] \otimes At(T, "w", S.c["A"][k])), E9)
          /\ Close(S.c["zB"][k], At(T, "z", S.c["B"][k]) \oplus
                     (S.c["sB"][k] \otimes At(T, "w", S.c["B"][k])), E9)) }
SameHeights(T, U) == Chk("heights change", CloseSeq(T.c["z"], U.c["z"], StackTol))
SameStack(S, S2) ==
  IF ~(Shaped(S, NetCols) /\ Shaped(S2, NetCols)) THEN {"shape"}
  ELSE Chk("stack changes", /\ S.len = S2.len /\ SameCol(S, S2, "A") /\ SameCol(S, S2, "B")
                            /\ \A c \in Range(NetCols) \ {"A", "B"} : CloseSeq(S.c[c], S2.c[c], StackTol))

(* C14: S is the stack without threshold, F the one with threshold t.      *)
KeepRow(S, k, t) ==
  LET d == RAbs(S.c["zB"][k] \ominus S.c["zA"][k])
  IN  IF S.c["A"][k] = S.c["B"][k] THEN "yes"
      ELSE IF d \preceq t THEN (IF REq(d, t) \/ d \preceq (t \ominus E9) THEN "yes" ELSE "maybe")
      ELSE IF (t \oplus E9) \preceq d THEN "no" ELSE "maybe"
Filtered(T, S, F, t) ==
  IF ~(NetShaped(T, S) /\ NetShaped(T, F)) THEN {"shape"}
  ELSE LET sure == SelectSeq([k \in 1 .. S.len |-> k], LAMBDA k : KeepRow(S, k, t) = "yes")
           clear == \A k \in 1 .. S.len : KeepRow(S, k, t) # "maybe"
       IN  UNION {
         Chk("labels", Labelled(F)),
         Chk("number of rows", clear => F.len = Len(sure)),
         Chk("rows", (clear /\ F.len = Len(sure)) => \A i \in 1 .. F.len :
               /\ F.c["A"][i] = S.c["A"][sure[i]] /\ F.c["B"][i] = S.c["B"][sure[i]]
               /\ CloseRow(F, i, S, sure[i])),
         Chk("far connection kept", \A i \in 1 .. F.len : F.c["A"][i] # F.c["B"][i] =>
               RAbs(F.c["zB"][i] \ominus F.c["zA"][i]) \preceq (t \oplus E9)) }

(* C15: the assembled system y and its solution x, marg (on rows), low.    *)
Weight(T, i, pi4) == ((pi4 \otimes At(T, "l", i)) \otimes At(T, "b", i)) \otimes At(T, "h", i)
InnerSeq(N) == SelectSeq([k \in 1 .. N.len |-> k], LAMBDA k : N.c["A"][k] # N.c["B"][k])
StackSystem(T, N, y, pi4) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE LET I == InnerSeq(N)  m == Len(I)
           Rows == [r \in 1 .. m |-> << N.c["A"][I[r]], N.c["B"][I[r]] >>]
           Triples == {<< y.row[k], y.col[k], y.val[k] >> : k \in DOMAIN y.row}
       IN  UNION {
         Chk("shape of C", y.shape = << m, T.len >>),
         Chk("entries of C",
               /\ Len(y.row) = 2 * m
               /\ \A r \in 1 .. m : /\ << r - 1, Rows[r][1], RInt(1) >> \in Triples
                                    /\ << r - 1, Rows[r][2], RInt(-1) >> \in Triples),
         Chk("bounds", Len(y.H) = m /\ \A r \in 1 .. m :
               Close(y.H[r], RNeg(Gap(At(T, "h", Rows[r][1]), At(T, "h", Rows[r][2]))), E9)),
         Chk("weights", Len(y.f) = T.len /\ \A i \in 1 .. T.len :
               Close(y.f[i], Weight(T, i - 1, pi4), E9)),
         Chk("thicknesses", Len(y.h) = T.len /\ \A i \in 1 .. T.len : REq(y.h[i], At(T, "h", i - 1))) }
StackForces(T, N, s, pi4) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE IF IsNull(s.x) THEN Chk("no solution", T.len = 0)
  ELSE LET I == InnerSeq(N)  m == Len(I)  n == T.len
           row == [k \in 1 .. 2 * m |-> IF k <= m THEN N.c["A"][I[k]] ELSE N.c["B"][I[k - m]]]
           col == [k \in 1 .. 2 * m |-> IF k <= m THEN k - 1 ELSE k - m - 1]
           val == [k \in 1 .. 2 * m |-> IF k <= m THEN RInt(1) ELSE RInt(-1)]
           W == RSum([i \in 1 .. n |-> Weight(T, i - 1, pi4)])
           tol == E6 \otimes (1 \oplus W)
           ok == Len(s.x) = n /\ Len(s.marg) = m /\ Len(s.low) = n
           load == SpMul(n, row, col, val, s.marg)
       IN  IF ~ok THEN {"solution shape"}
           ELSE UNION {
         Chk("attracting contact", \A r \in 1 .. m : s.marg[r] \preceq tol),
         Chk("attracting floor", \A i \in 1 .. n : RNeg(tol) \preceq s.low[i]),
         Chk("balance", \A i \in 1 .. n :
               RAbs((load[i] \oplus s.low[i]) \ominus Weight(T, i - 1, pi4)) \preceq tol),
         Chk("total weight", RAbs(RSum(s.low) \ominus W) \preceq tol),
         Chk("force on open contact", \A r \in 1 .. m :
               RAbs(s.marg[r]) \preceq tol \/
               ((s.x[N.c["B"][I[r]] + 1] \ominus s.x[N.c["A"][I[r]] + 1])
                  \preceq (RowGap(T, N, I[r]) \oplus E6))),
         Chk("floor force on hanging fiber", \A i \in 1 .. n :
               s.low[i] \preceq tol \/ s.x[i] \preceq (Half(At(T, "h", i - 1)) \oplus E6)),
         Chk("solution violates the conditions",
               /\ \A i \in 1 .. n : (Half(At(T, "h", i - 1)) \ominus E6) \preceq s.x[i]
               /\ \A r \in 1 .. m : (RowGap(T, N, I[r]) \ominus E6) \preceq
                    (s.x[N.c["B"][I[r]] + 1] \ominus s.x[N.c["A"][I[r]] + 1])) }
=============================================================================
