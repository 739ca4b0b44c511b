---------------------------- MODULE MC_Sampling ----------------------------
(***************************************************************************)
(* Histories as functions of time.  A recorder appends samples; readers    *)
(* ask at times.  The reference answers (computed here on their own, by    *)
(* walking along the samples) satisfy the relation Interpolation for every *)
(* history, interpolation size and kind, and wrong answers do not: those   *)
(* of the neighbouring sample, of a history with a sample changed, of the  *)
(* other kind.                                                             *)
(***************************************************************************)
EXTENDS Sampling, IOUtils
CONSTANTS Samples, Values
Claim == IOEnv.CLAIM
V3 == {0, 1, -2}
V4 == {0, 1, -2, 5}

VARIABLES y,       \* samples <<x>> so far
          wide     \* 0: scalars, 1: with a constant component, 2: with an infinite one
vars == << y, wide >>
Init == y \in {<< v >> : v \in Values} /\ wide \in 0 .. 2
Record == Len(y) < Samples /\ \E v \in Values : y' = Append(y, v) /\ wide' = wide
Next == Record

Row(v) == CASE wide = 0 -> << RInt(v) >> [] wide = 1 -> << RInt(v), RInt(3) >> [] OTHER -> << RInf, RInt(v) >>
Y == TLCEval([k \in DOMAIN y |-> Row(y[k])])
Sizes == {0, 1, 2, 3, 5}      \* 0: as recorded
Kinds == {"linear", "previous"}

(* The answer at time a / b by walking along the samples.                  *)
RECURSIVE Walk(_, _, _, _)
Walk(s, k, a, b) ==           \* s: samples, position (k - 1) + a / b
  IF k >= Len(s) THEN s[Len(s)]
  ELSE IF a >= b THEN Walk(s, k + 1, a - b, b)
  ELSE [c \in DOMAIN s[k] |-> IF REq(s[k][c], s[k + 1][c]) THEN s[k][c]
                              ELSE s[k][c] \oplus (Q(a, b) \otimes (s[k + 1][c] \ominus s[k][c]))]
RECURSIVE Hold(_, _, _, _)
Hold(s, k, a, b) == IF k >= Len(s) THEN s[Len(s)] ELSE IF a >= b THEN Hold(s, k + 1, a - b, b) ELSE s[k]
AtFrac(s, a, b, kind) == IF kind = "linear" THEN Walk(s, 1, a * (Len(s) - 1), b) ELSE Hold(s, 1, a * (Len(s) - 1), b)
Again(s, size, kind) ==
  IF size = 0 \/ Len(s) = 1 THEN (IF size = 0 THEN s ELSE [k \in 1 .. size |-> s[1]])
  ELSE [k \in 1 .. size |-> AtFrac(s, k - 1, IF size = 1 THEN 1 ELSE size - 1, kind)]
Asked == << << 0, 1 >>, << 1, 7 >>, << 1, 3 >>, << 1, 2 >>, << 5, 6 >>, << 1, 1 >>, << 3, 2 >> >>
Answer(s, size, kind, q) ==
  LET a == IF q[1] > q[2] THEN q[2] ELSE q[1] IN
  IF kind = "previous" /\ size = 0 THEN AtFrac(s, a, q[2], kind)
  ELSE AtFrac(Again(s, size, kind), a, q[2], kind)
Event(size, kind) ==
  LET s == Y  m == IF size = 0 THEN Len(s) ELSE size IN
  [kind |-> kind, size |-> IF size = 0 THEN "null" ELSE size, y |-> s, dtype |-> "float", dtypeOut |-> "float",
   shape |-> << Len(s[1]) >>, shapeOut |-> << Len(s[1]) >>,
   ask |-> [j \in DOMAIN Asked |-> Q(Asked[j][1], Asked[j][2])],
   got |-> TLCEval([j \in DOMAIN Asked |-> Answer(s, size, kind, Asked[j])]),
   at |-> IF size = 0 THEN s ELSE << >>,
   own |-> TLCEval(Again(s, size, kind))]
Sound == \A size \in Sizes : \A kind \in Kinds : Interpolation(Event(size, kind)) = {}

(* Wrong answers.                                                          *)
Shifted(e) == [e EXCEPT !.got = TLCEval([j \in DOMAIN e.got |->
                 IF j > 1 THEN e.got[j - 1] ELSE e.got[j]])]
Sharp ==
  LET s == Y
      c == IF wide = 2 THEN 2 ELSE 1
      varies == \E k \in 1 .. Len(y) - 1 : y[k] # y[k + 1]
  IN  \A size \in Sizes \ {1} : \A kind \in Kinds :
        LET e == TLCEval(Event(size, kind)) IN
        \A j \in DOMAIN e.got :
          LET far == [e EXCEPT !.got[j][c] = e.got[j][c] \oplus Q(1, 10)] IN
          /\ Interpolation(far) # {}
          /\ Interpolation([e EXCEPT !.own[1][c] = @ \oplus Q(1, 10)]) # {}
          /\ Interpolation([e EXCEPT !.dtypeOut = "int"]) # {}
          /\ (size = 0 /\ varies) =>
               Interpolation([e EXCEPT !.got = Event(0, IF kind = "linear" THEN "previous" ELSE "linear").got]) # {}
                 \/ Event(0, "linear").got = Event(0, "previous").got
(* Between samples: within their range; resampling a resampling on the     *)
(* same times changes nothing; as many samples as recorded: the recording. *)
Between ==
  LET s == Y IN \A j \in DOMAIN Asked :
    LET v == Answer(s, 0, "linear", Asked[j]) IN \A c \in DOMAIN v :
      RMinSeq([k \in DOMAIN s |-> s[k][c]]) \preceq v[c] /\ v[c] \preceq RMaxSeq([k \in DOMAIN s |-> s[k][c]])
Stable == \A size \in Sizes \ {0} :
  LET r == TLCEval(Resampled(Y, size)) IN
  /\ \A k \in 1 .. size : \A c \in DOMAIN r[k] : REq(Resampled(r, size)[k][c], r[k][c])
  /\ size = Len(y) => \A k \in 1 .. size : \A c \in DOMAIN r[k] : REq(r[k][c], Y[k][c])
Emit == \A size \in Sizes : \A kind \in 0 .. 1 : PrintT("CASE " \o ToString(<< y, wide, size, kind >>))
=============================================================================
