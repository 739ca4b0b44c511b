----------------------------- MODULE MC_Checker -----------------------------
(***************************************************************************)
(* The well-formedness checkers.  A correct table is changed by up to      *)
(* Depth edits; every edit is of a kind of which the documentation names   *)
(* the error.  The verdict which the specification computes from the       *)
(* contents of the table must agree with the history of the edits.         *)
(* Every table reached is printed, and shown to the real checker.          *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
CONSTANTS Kind,     \* "Mat", "Net" or "Mesh"
          Many,    \* number of fibers
          Depth
Claim == IOEnv.CLAIM
VARIABLES T, hist
vars == << T, hist >>

(*---------------------------------------------------------- correct tables *)
FiberAt(i) == IF i % 2 = 1
  THEN << RInt(4), RInt(1), RInt(1), RInt(0), RInt(-1), RInt(i), RInt(1), RInt(0), RInt(0), RInt(2), RInf >>
  ELSE << RInt(6), RInt(1), Q(3, 2), RInt(1), RInt(0), RInt(i), Q(3, 5), Q(4, 5), RInt(0), RInt(2), RInt(60) >>
Base0 == FiberTable(TLCEval([i \in 1 .. Many |-> FiberAt(i)]), RInt(10))
Base == CASE Kind = "Mat"  -> Base0
          [] Kind = "Net"  -> NetOf(Base0, FALSE)
          [] Kind = "Mesh" -> MeshOf(NetOf(Base0, FALSE))
Required == CASE Kind = "Mat" -> FiberCols [] Kind = "Net" -> NetCols [] Kind = "Mesh" -> MeshCols
RequiredAttrs == IF Kind = "Mat" THEN {"n", "size"} ELSE {"n", "size", "periodic"}
Verdict(t) == CASE Kind = "Mat" -> MatVerdict(t) [] Kind = "Net" -> NetVerdict(t) [] Kind = "Mesh" -> MeshVerdict(t)

(*------------------------------------------------------------------- edits *)
(* An edit is a record: kind, arguments, and err, the documented error.     *)
Ed(kind, a, err) == [kind |-> kind, a |-> a, err |-> err]
Without(t, col) ==
  [t EXCEPT !.cols = SelectSeq(t.cols, LAMBDA k : k # col),
            !.c = [k \in (DOMAIN t.c) \ {col} |-> t.c[k]], !.dtype = [k \in (DOMAIN t.dtype) \ {col} |-> t.dtype[k]]]
WithCol(t, col, v) ==
  [t EXCEPT !.cols = Append(t.cols, col), !.c = (col :> v) @@ t.c, !.dtype = (col :> "float") @@ t.dtype]
Put1(t, col, i, v) == IF col \in DOMAIN t.c /\ i <= t.len 
                       THEN [t EXCEPT !.c[col][i] = IF IsInt(v) /\ t.dtype[col] = "float" THEN RInt(v) ELSE v] ELSE t
RowOp(t, f, n) == [t EXCEPT !.len = n, !.c = [k \in DOMAIN t.c |-> f[k]],
                            !.index = [i \in 1 .. n |-> i - 1]]
Perm(t, i, j) == [k \in 1 .. t.len |-> IF i > t.len \/ j > t.len THEN k ELSE IF k = i THEN j ELSE IF k = j THEN i ELSE k]
Apply(t, e) ==
  CASE e.kind = "drop"   -> IF e.a[1] \in DOMAIN t.c THEN Without(t, e.a[1]) ELSE t
    [] e.kind = "unattr" -> [t EXCEPT !.attrs = [k \in (DOMAIN t.attrs) \ {e.a[1]} |-> t.attrs[k]]]
    [] e.kind = "extra"  -> IF "extra" \in DOMAIN t.c THEN t ELSE WithCol(t, "extra", [i \in 1 .. t.len |-> RInt(i)])
    [] e.kind = "turn"   -> [t EXCEPT !.cols = [i \in 1 .. Len(t.cols) |-> t.cols[Len(t.cols) + 1 - i]]]
    [] e.kind = "attr"   -> [t EXCEPT !.attrs = (e.a[1] :> e.a[2]) @@ t.attrs]
    [] e.kind = "label"  -> IF e.a[1] > t.len THEN t ELSE [t EXCEPT !.index[e.a[1]] = e.a[2]]
    [] e.kind = "labels" -> [t EXCEPT !.index = [i \in 1 .. t.len |-> t.index[Perm(t, e.a[1], e.a[2])[i]]]]
    [] e.kind = "put"    -> Put1(t, e.a[1], e.a[2], e.a[3])
    [] e.kind = "float"  -> IF e.a[1] \in DOMAIN t.c /\ t.dtype[e.a[1]] = "int"
                            THEN [t EXCEPT !.dtype[e.a[1]] = "float", !.c[e.a[1]] = [i \in 1 .. t.len |-> RInt(t.c[e.a[1]][i])]]
                            ELSE t
    [] e.kind = "cut"    -> IF t.len = 0 THEN t ELSE
                            RowOp(t, [k \in DOMAIN t.c |-> SubSeq(t.c[k], 1, t.len - 1)], t.len - 1)
    [] e.kind = "double" -> IF t.len < e.a[1] THEN t ELSE
                            RowOp(t, [k \in DOMAIN t.c |-> Append(t.c[k], t.c[k][e.a[1]])], t.len + 1)
    [] e.kind = "rows"   -> LET p == Perm(t, e.a[1], e.a[2]) IN
                            RowOp(t, [k \in DOMAIN t.c |-> [i \in 1 .. t.len |-> t.c[k][p[i]]]], t.len)
    [] e.kind = "swap"   -> IF e.a[1] \in DOMAIN t.c
                            THEN LET p == Perm(t, e.a[2], e.a[3]) IN
                                 [t EXCEPT !.c[e.a[1]] = [i \in 1 .. t.len |-> t.c[e.a[1]][p[i]]]]
                            ELSE t

(* "" means that the table stays correct, "?" that it depends.             *)
L == Base.len
Ends == IF L = 0 THEN {} ELSE {1, L}
Common == {Ed("drop", << k >>, "KeyError") : k \in Range(Required)}
       \cup {Ed("unattr", << a >>, "AttributeError") : a \in RequiredAttrs}
       \cup {Ed("extra", << >>, ""), Ed("turn", << >>, ""), Ed("attr", << "note", 5 >>, ""), Ed("attr", << "skip_check", FALSE >>, ""),
             Ed("attr", << "skip_check", TRUE >>, "skip")}
       \cup {Ed("label", << i, v >>, "IndexError") : i \in Ends, v \in {-1, L, L + 3, IF L > 1 THEN L \div 2 ELSE 7}}
       \cup (IF L < 2 THEN {} ELSE {Ed("labels", << 1, 2 >>, "IndexError"), Ed("labels", << 1, L >>, "IndexError")})
OfMat ==
  {Ed("put", << k, i, v >>, "ValueError") : k \in {"l", "b", "h", "G", "E"}, i \in Ends, v \in {RInt(0), RInt(-1), RNaN, RNegInf}}
  \cup {Ed("put", << k, i, v >>, "ValueError") : k \in {"x", "y"}, i \in Ends, v \in {Q(51, 10), Q(-51, 10), RNaN, RInf}}
  \cup {Ed("put", << k, i, v >>, "") : k \in {"x", "y"}, i \in Ends, v \in {RInt(5), RInt(-5)}}
  \cup {Ed("put", << "z", i, v >>, "") : i \in Ends, v \in {RInt(99), RInt(-99)}}
  \cup {Ed("put", << k, i, RInf >>, "") : k \in {"G", "E"}, i \in Ends}
  \cup {Ed("put", << "u", i, v >>, "ValueError") : i \in Ends, v \in {RInt(2), RInt(0), RNaN}}
  \cup {Ed("put", << "w", i, v >>, "ValueError") : i \in Ends, v \in {Q(1, 2), RNaN}}
  \cup {Ed("attr", << "n", v >>, "ValueError") : v \in {Many + 1, Many + 2}}
  \cup (IF L = 0 THEN {} ELSE {Ed("cut", << >>, "ValueError"), Ed("double", << 1 >>, "ValueError"), Ed("attr", << "n", 0 >>, "ValueError")})
  \cup (IF L < 2 THEN {} ELSE {Ed("rows", << 1, 2 >>, "")})
  \cup {Ed("attr", << "size", RInt(12) >>, "")}
  \cup (IF L = 0 THEN {} ELSE {Ed("attr", << "size", RInt(1) >>, "ValueError")})
OfNet ==
  {Ed("float", << k >>, IF L = 0 THEN "?" ELSE "TypeError") : k \in {"A", "B"}}
  \cup {Ed("put", << k, i, v >>, "ValueError") : k \in {"A", "B"}, i \in Ends, v \in {-1, Many, Many + 5}}
  \cup {Ed("put", << k, i, v >>, "") : k \in {"xA", "zB"}, i \in Ends, v \in {RInt(77), RInt(-77)}}
  \cup {Ed("put", << k, i, v >>, "") : k \in {"sA", "sB"}, i \in Ends, v \in {Q(1, 4)}}
  \cup {Ed("put", << k, i, v >>, "?") : k \in {"A", "B"}, i \in 1 .. L, v \in 0 .. Many - 1}
  \cup {Ed("double", << i >>, "ValueError") : i \in Ends}
  \cup (IF L = 0 THEN {} ELSE {Ed("cut", << >>, ""), Ed("attr", << "n", Many - 1 >>, "ValueError"), Ed("attr", << "n", 0 >>, "ValueError")})
  \cup {Ed("attr", << "n", Many + 1 >>, ""), Ed("attr", << "periodic", TRUE >>, ""), Ed("attr", << "size", RInt(1) >>, "")}
  \cup (IF L < 2 THEN {} ELSE {Ed("rows", << 1, L >>, "")})
OfMesh ==
  {Ed("float", << k >>, IF L = 0 THEN "?" ELSE "TypeError") : k \in {"fiber", "beam", "constraint"}}
  \cup {Ed("put", << k, i, v >>, "ValueError") : k \in {"beam", "constraint"}, i \in Ends, v \in {-1, L, L + 2}}
  \cup {Ed("put", << "fiber", i, v >>, "ValueError") : i \in Ends, v \in {-1, Many, Many + 1}}
  \cup {Ed("put", << "beam", i, v >>, IF v = Base.c["beam"][i] THEN "" ELSE "ValueError") : i \in 1 .. L, v \in 0 .. L - 1}
  \cup {Ed("put", << "constraint", i, v >>, IF v = Base.c["constraint"][i] THEN "" ELSE "ValueError") : i \in 1 .. L, v \in 0 .. L - 1}
  \cup {Ed("put", << k, i, RInt(77) >>, "") : k \in {"x", "y", "z"}, i \in Ends}
  \cup {Ed("swap", << "beam", i, j >>, "ValueError") : i, j \in {1, 2, L} \cap 1 .. L}
  \cup {Ed("swap", << "s", i, j >>, "?") : i, j \in 1 .. L}
  \cup {Ed("swap", << "constraint", i, j >>, "?") : i, j \in 1 .. L}
  \cup {Ed("rows", << i, j >>, "?") : i, j \in {1, 2, L} \cap 1 .. L}
  \cup (IF L = 0 THEN {} ELSE {Ed("cut", << >>, "ValueError"), Ed("attr", << "n", Many - 1 >>, "ValueError")})
  \cup {Ed("attr", << "n", Many + 1 >>, ""), Ed("attr", << "periodic", TRUE >>, ""), Ed("attr", << "size", RInt(1) >>, "")}
Edits == {e \in Common \cup (CASE Kind = "Mat" -> OfMat [] Kind = "Net" -> OfNet [] Kind = "Mesh" -> OfMesh) :
            ~(e.kind \in {"swap", "rows"} /\ e.a[Len(e.a)] <= e.a[Len(e.a) - 1])}

(* States are told apart by their histories: printed text has an order.    *)
Init == T = Base /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E e \in Edits : T' = TLCEval(Apply(T, e)) /\ hist' = Append(hist, e)
             /\ ToString(Apply(T, e)) # ToString(T)

Errors == {"KeyError", "AttributeError", "IndexError", "TypeError", "ValueError"}
V == Verdict(T)
Kinds == {hist[i].err : i \in DOMAIN hist}
Sound ==
  /\ V # {} /\ V \subseteq Errors \cup {"ok"}
  /\ hist = << >> => V = {"ok"}
  /\ Len(hist) = 1 => LET err == hist[1].err IN
        CASE err \in Errors        -> V = {err}
          [] err \in {"", "skip"}  -> V = {"ok"}
          [] OTHER                 -> V \subseteq {"ok", "ValueError", "TypeError"}
  /\ HasAttr(T, "skip_check") /\ T.attrs.skip_check = TRUE => V = {"ok"}
  (* edits which leave the table correct do so in any company; errors are   *)
  (* those of the edits made (two edits may also make a new value error)    *)
  /\ Kinds \subseteq {""} => V \subseteq {"ok", "ValueError"}
  /\ "?" \notin Kinds => V \subseteq Kinds \cup {"ok", "ValueError"}
  (* edits of different kinds cannot repair each other                      *)
  /\ ("KeyError" \in Kinds /\ "skip" \notin Kinds) => "KeyError" \in V
Emit == Len(hist) = Depth => PrintT("CASE " \o ToString(<< T, [i \in DOMAIN hist |-> hist[i].kind] >>))
=============================================================================
