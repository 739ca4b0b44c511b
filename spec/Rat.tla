-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact arithmetic on the rational numbers, extended with the three       *)
(* special floating-point values oo, -oo and nan.                          *)
(*                                                                         *)
(* Every binary64 number is a rational number, so the numbers which the    *)
(* implementation logs are values of this module, without any rounding.    *)
(* TLC cannot evaluate real arithmetic; Rat.java evaluates the operators   *)
(* of this module (a TLC module override), in arbitrary precision.  It is  *)
(* part of the trusted base; RatTest.tla cross-checks it against the       *)
(* integer arithmetic of TLC.                                              *)
(*                                                                         *)
(* Values of this module are written `#x' in traces.  Integers may be used *)
(* wherever a number is expected.                                          *)
(***************************************************************************)
LOCAL INSTANCE Reals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

(* The special values.  nan is unequal to every number in RLt, RLe.        *)
LOCAL NaN == CHOOSE x : x \notin Real \cup {Infinity, -Infinity}
LOCAL Fin(x) == x \in Real

RInt(n)   == n                        \* the integer n as a number
RLit(s)   == CHOOSE x \in Real : TRUE \* the number which string s denotes
IsNum(x)  == x \in Real \cup {Infinity, -Infinity, NaN} \* (and not a TLC integer)
IsInt(x)  == x \in Int                \* a TLC integer
IsFin(x)  == x \in Real
IsNaN(x)  == x = NaN

RAdd(x, y) == IF x = NaN \/ y = NaN \/ (x = Infinity /\ y = -Infinity)
                 \/ (x = -Infinity /\ y = Infinity) THEN NaN ELSE x + y
RSub(x, y) == RAdd(x, -y)
RMul(x, y) == IF x = NaN \/ y = NaN \/ (x = 0 /\ ~Fin(y)) \/ (y = 0 /\ ~Fin(x))
              THEN NaN ELSE x * y
RDiv(x, y) == IF y = 0 \/ x = NaN \/ y = NaN \/ (~Fin(x) /\ ~Fin(y))
              THEN NaN ELSE x / y
RNeg(x)    == IF x = NaN THEN NaN ELSE -x
RAbs(x)    == IF x = NaN THEN NaN ELSE IF x < 0 THEN -x ELSE x
RLt(x, y)  == x # NaN /\ y # NaN /\ x < y
RLe(x, y)  == x # NaN /\ y # NaN /\ x <= y
RMin(x, y) == IF x = NaN \/ RLe(x, y) THEN x ELSE y
RMax(x, y) == IF x = NaN \/ RLe(y, x) THEN x ELSE y
(* The value which stands for an absent argument.                          *)
IsNull(x)  == x = "null"
RFloor(x)  == CHOOSE n \in Int : n <= x /\ x < n + 1
RStr(x)    == ToString(x)

(* Equality up to a mixed absolute and relative tolerance.                 *)
Close(x, y, tol) ==
  IF Fin(x) /\ Fin(y)
  THEN RAbs(x - y) <= tol * (1 + RMax(RAbs(x), RAbs(y)))
  ELSE x # NaN /\ x = y

RSum(s)    == LET RECURSIVE SumTo(_)
                  SumTo(n) == IF n = 0 THEN 0 ELSE RAdd(SumTo(n - 1), s[n])
              IN  SumTo(Len(s))
RDot(s, r) == RSum([i \in 1 .. Len(s) |-> RMul(s[i], r[i])])
RMaxSeq(s) == IF Len(s) = 0 THEN -Infinity
              ELSE CHOOSE x \in {s[i] : i \in 1 .. Len(s)} :
                     \A i \in 1 .. Len(s) : s[i] <= x
RMinSeq(s) == IF Len(s) = 0 THEN Infinity
              ELSE CHOOSE x \in {s[i] : i \in 1 .. Len(s)} :
                     \A i \in 1 .. Len(s) : x <= s[i]

(* Product of a sparse matrix (coordinate triples, indices from 0; several *)
(* triples at the same place add up) with n rows and a vector.             *)
SpMul(n, row, col, val, x) ==
  [i \in 1 .. n |->
     RSum([k \in 1 .. Len(row) |->
             IF row[k] = i - 1 THEN RMul(val[k], x[col[k] + 1]) ELSE 0])]

(* The same matrix as a function from its non-empty places to numbers.     *)
SpMap(row, col, val) ==
  [p \in {<< row[k], col[k] >> : k \in 1 .. Len(row)} |->
     RSum([k \in 1 .. Len(row) |-> IF << row[k], col[k] >> = p THEN val[k] ELSE 0])]

(* The solution of a square linear system, << >> if it is not unique.      *)
RSolve(A, b) ==
  LET n == Len(b)
      Sol == {x \in [1 .. n -> Real] : \A i \in 1 .. n : RDot(A[i], x) = b[i]}
  IN  IF \E x \in Sol : Sol = {x} THEN CHOOSE x \in Sol : TRUE ELSE << >>

(* Contents of a JSON file in which a string "#x" denotes a number.        *)
RatJson(file) == CHOOSE x : TRUE

(* -------------------------------------------------------- derived forms *)
x \oplus y  == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
x \prec y   == RLt(x, y)
x \preceq y == RLe(x, y)
REq(x, y)   == RLe(x, y) /\ RLe(y, x)
RSq(x)      == RMul(x, x)
Half(x)     == RDiv(x, 2)
Q(n, d)     == RDiv(n, d)
RInf        == RLit("inf")
RNegInf     == RLit("-inf")
RNaN        == RLit("nan")
RSign(x)    == IF RLt(0, x) THEN 1 ELSE IF RLt(x, 0) THEN -1 ELSE 0
(* Three-valued comparison: "yes", "no" or "maybe" within a margin.        *)
SurelyLt(x, y, m) == RLt(RAdd(x, m), y)
=============================================================================
