------------------------------- MODULE MC_Gen -------------------------------
(***************************************************************************)
(* The generator of fiber sets and the random numbers it shares with the   *)
(* user.  The user draws numbers, seeds the generator, or generates fiber  *)
(* sets, in any order.  Whatever came before, a seeded generation is       *)
(* reproducible, and its parameters act independently of each other.       *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
CONSTANTS Depth, Rich
Claim == IOEnv.CLAIM

VARIABLES rng,      \* << seed, number of draws since >>
          made,     \* generations << code, T >>
          hist
vars == << rng, made, hist >>

(* A stream of numbers in [0, 1), different for every seed.                *)
Draw(r, k) == LET s == r[1] + 2  q == r[2] + k IN Q(((s * s * 229 + q * 1043 + s * q * q * 17) % 1009), 1009)

(* Generations << n, size, theta, psi, dimensions, seed >>.                *)
Codes == {<< n, size, th, ps, dim, seed >> :
            n \in {0, 3}, size \in {10, 25}, th \in IF Rich THEN 0 .. 2 ELSE {1, 2}, ps \in {0, 1},
            dim \in IF Rich THEN {0, 1} ELSE {0}, seed \in {-1, 0, 1}}
Few == {c \in Codes : c[1] = 3 /\ (c[4] = 1 \/ c[2] = 10)} \cup {<< 0, 10, 1, 0, 0, 0 >>}
Tau(th) == << RInt(0), Q(1, 2), RInt(2) >>[th + 1]
Sig(ps) == << RInt(0), Q(1, 3) >>[ps + 1]
Cos(t) == (1 \ominus RSq(t)) \oslash (1 \oplus RSq(t))
Sin(t) == (t \oplus t) \oslash (1 \oplus RSq(t))
Params(c) ==
  [n |-> c[1], seed |-> IF c[6] < 0 THEN "null" ELSE RInt(c[6]), size |-> RInt(c[2]),
   theta |-> RInt(c[3]), psi |-> RInt(c[4]),
   length |-> RInt(IF c[5] = 0 THEN 5 ELSE 8), width |-> RInt(1), thickness |-> RInt(1),
   shear |-> RInt(1), tensile |-> IF c[5] = 0 THEN RInf ELSE RInt(100),
   cosT |-> Cos(Tau(c[3])), sinT |-> Sin(Tau(c[3])), sinP |-> Sin(Sig(c[4])),
   fullTurn |-> FALSE, cos5 |-> RInt(0), sin5 |-> RInt(0), cos9 |-> RInt(0), sin9 |-> RInt(0)]

(* Sorted sequence of numbers.                                             *)
SortedSeq(s) == LET RECURSIVE Ins(_, _)
                    Ins(t, x) == IF t = << >> \/ x \preceq Head(t) THEN << x >> \o t ELSE << Head(t) >> \o Ins(Tail(t), x)
                    RECURSIVE Go(_)
                    Go(t) == IF t = << >> THEN << >> ELSE Ins(Go(Tail(t)), Head(t))
                IN  Go(s)
Start(c) == IF c[6] < 0 THEN rng ELSE << c[6], 0 >>
Generate(c) ==
  LET n == c[1]  p == Params(c)
      pos(a) == [i \in 1 .. n |-> RInt(c[2]) \otimes (Draw(Start(c), a * n + i) \ominus Q(1, 2))]
      x == TLCEval(pos(0))  y == TLCEval(pos(1))  z == TLCEval(SortedSeq(pos(2)))
      turn(a) == (2 \otimes Draw(Start(c), a)) \ominus 1
      dir == TLCEval([i \in 1 .. n |->
               LET t == Tau(c[3]) \otimes turn(3 * n + i)  s == Sig(c[4]) \otimes turn(4 * n + i)
               IN  << Cos(t) \otimes Cos(s), Sin(t) \otimes Cos(s), Sin(s) >>])
  IN  FiberTable(TLCEval([i \in 1 .. n |-> << p.length, p.width, p.thickness, x[i], y[i], z[i],
                    dir[i][1], dir[i][2], dir[i][3], p.shear, p.tensile >>]), RInt(c[2]))

Init == rng = << 5, 0 >> /\ made = << >> /\ hist = << >>
Mat(c) == /\ made' = Append(made, << c, Generate(c) >>)
          /\ rng' = << Start(c)[1], Start(c)[2] + 5 * c[1] >>
          /\ hist' = Append(hist, c)
UserDraws == rng' = << rng[1], rng[2] + 1 >> /\ hist' = Append(hist, << "draw" >>) /\ made' = made
UserSeeds == rng' = << 1, 0 >> /\ hist' = Append(hist, << "seed" >>) /\ made' = made
UserEdits == /\ made # << >>
             /\ rng' = rng /\ made' = made /\ hist' = Append(hist, << "edit" >>)
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in IF made = << >> THEN Few ELSE {c \in Codes : Len(made) = 1 \/ c \in Few} : Mat(c)
           \/ Len(hist) = 1 /\ (UserDraws \/ UserSeeds \/ UserEdits)

Sound ==
  /\ \A k \in DOMAIN made : Generated(Params(made[k][1]), made[k][2]) = {}
  /\ \A j \in 1 .. Len(made) - 1 : LET k == Len(made) IN
       Related(Params(made[j][1]), made[j][2], Params(made[k][1]), made[k][2]) = {}
(* The relations tell generations apart.                                   *)
Sharp ==
  Len(made) > 0 =>
    LET c == made[Len(made)][1]  T == made[Len(made)][2]  p == Params(c)
        Put(col, i, v) == [T EXCEPT !.c = [T.c EXCEPT ![col] = [T.c[col] EXCEPT ![i] = v]]]
    IN  T.len > 0 =>
          /\ \A col \in Range(FiberCols) \ IF c[5] = 0 THEN {"E"} ELSE {} :
               Generated(p, Put(col, 1, T.c[col][1] \oplus (c[2] + 1))) # {}
          /\ Generated([p EXCEPT !.size = RInt(7)], T) # {}
          /\ c[3] = 2 => Generated(Params([c EXCEPT ![3] = 0]), T) # {}
          /\ c[4] = 1 => Generated(Params([c EXCEPT ![4] = 0]), T) # {}
          /\ c[6] >= 0 =>
               /\ \A col \in {"x", "y", "z"} : Related(p, T, p, Put(col, 2, T.c[col][2] \oplus Q(1, 100))) # {}
               /\ Related(p, T, [p EXCEPT !.seed = RInt(9)], T) # {}
Emit == (Len(hist) = Depth /\ Len(made) > 1) => PrintT("CASE " \o ToString(hist))
=============================================================================
