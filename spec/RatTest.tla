------------------------------ MODULE RatTest ------------------------------
(* Cross-check of the Java evaluation of Rat against pure integer TLA+.    *)
EXTENDS Rat, Integers, Sequences, TLC
VARIABLE done
Num == -4 .. 4
Den == 1 .. 4
Pairs == Num \X Den
Val(p) == Q(p[1], p[2])
Is(x, n, d) == REq(RMul(x, d), n)
ASSUME \A p \in Pairs : Is(Val(p), p[1], p[2])
ASSUME \A p, q \in Pairs :
  /\ Is(Val(p) \oplus Val(q), p[1] * q[2] + q[1] * p[2], p[2] * q[2])
  /\ Is(Val(p) \ominus Val(q), p[1] * q[2] - q[1] * p[2], p[2] * q[2])
  /\ Is(Val(p) \otimes Val(q), p[1] * q[1], p[2] * q[2])
  /\ q[1] # 0 => REq((Val(p) \oslash Val(q)) \otimes Val(q), Val(p))
  /\ (Val(p) \prec Val(q)) = (p[1] * q[2] < q[1] * p[2])
  /\ (Val(p) \preceq Val(q)) = (p[1] * q[2] <= q[1] * p[2])
  /\ (Val(p) = Val(q)) = (p[1] * q[2] = q[1] * p[2])
  /\ REq(RMax(Val(p), Val(q)), IF Val(p) \preceq Val(q) THEN Val(q) ELSE Val(p))
  /\ REq(RMin(Val(p), Val(q)), IF Val(p) \preceq Val(q) THEN Val(p) ELSE Val(q))
  /\ Close(Val(p), Val(q), 0) = (p[1] * q[2] = q[1] * p[2])
ASSUME \A p \in Pairs : /\ RFloor(Val(p)) * p[2] <= p[1]
                        /\ p[1] < (RFloor(Val(p)) + 1) * p[2]
                        /\ REq(RAbs(Val(p)), RMax(Val(p), RNeg(Val(p))))
ASSUME /\ RLit("0x1.8p+1") = RInt(3) /\ RLit("1/2") = Q(1, 2) /\ RLit("0.25") = Q(1, 4)
       /\ RLit("1e-3") = Q(1, 1000) /\ RLit("-0x1.0p-2") = Q(-1, 4)
ASSUME /\ IsNaN(RInf \ominus RInf) /\ IsNaN(RMul(0, RInf)) /\ RLt(5, RInf) /\ RLt(RNegInf, 5)
       /\ ~RLe(RNaN, RNaN) /\ REq(RDiv(1, RInf), 0) /\ REq(RInf \oplus 1, RInf)
       /\ ~IsFin(RInf) /\ IsFin(Q(1, 3)) /\ Close(RInf, RInf, Q(1, 9)) /\ ~Close(RNaN, RNaN, Q(1, 9))
ASSUME LET s == << Q(1, 2), Q(1, 3), Q(-5, 7) >>
       IN  /\ REq(RSum(s), Q(1, 2) \oplus Q(1, 3) \oplus Q(-5, 7))
           /\ REq(RDot(s, s), RSq(s[1]) \oplus RSq(s[2]) \oplus RSq(s[3]))
           /\ REq(RMaxSeq(s), Q(1, 2)) /\ REq(RMinSeq(s), Q(-5, 7))
ASSUME \A a, b, c, d \in -2 .. 2 : LET x == RSolve(<< <<a, b>>, <<c, d>> >>, << 1, 2 >>) IN
         IF a * d - b * c = 0 THEN x = << >>
         ELSE /\ REq(RDot(<<a, b>>, x), 1) /\ REq(RDot(<<c, d>>, x), 2)
ASSUME LET y == SpMul(2, << 0, 1, 1, 0 >>, << 0, 1, 2, 0 >>, << 2, 3, 4, 1 >>, << Q(1, 2), 1, 2 >>)
       IN  REq(y[1], Q(3, 2)) /\ REq(y[2], 11)
ASSUME LET f == SpMap(<< 1, 0, 1 >>, << 0, 2, 0 >>, << Q(1, 2), 3, Q(1, 3) >>)
       IN  DOMAIN f = {<< 0, 2 >>, << 1, 0 >>} /\ f[<< 1, 0 >>] = Q(5, 6) /\ REq(f[<< 0, 2 >>], 3)
ASSUME {Q(1, 2), Q(2, 4), Q(1, 3)} = {Q(1, 3), Q(1, 2)}
ASSUME << RInt(1), Q(1, 2) >> = << RInt(1), Q(2, 4) >>
Init == done = Q(1, 2)
Next == done' = Q(2, 4)
=============================================================================
