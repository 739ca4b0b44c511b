------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Tables, as the library represents fiber sets, networks and meshes.      *)
(*                                                                         *)
(* A table T is a record                                                   *)
(*   len    number of rows                                                 *)
(*   cols   sequence of the names of its columns                           *)
(*   dtype  for every column "int", "float" or "other"                     *)
(*   c      for every column the sequence of its values (TLC integers for  *)
(*          an integer column, numbers of module Rat for a float column)   *)
(*   index  sequence of the row labels (TLC integers)                      *)
(*   attrs  record of the global attributes                                *)
(*   cls    name of the class of the object                                *)
(*                                                                         *)
(* Rows and labels of the library start from 0, sequences from 1.          *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

(* A clause of a property: the set of the names of the clauses that fail.  *)
Chk(name, cond) == IF cond THEN {} ELSE {name}

Range(s) == {s[i] : i \in DOMAIN s}
HasCols(T, cs) == \A i \in DOMAIN cs : cs[i] \in Range(T.cols)
HasAttr(T, a) == a \in DOMAIN T.attrs
Shaped(T, cs) == /\ HasCols(T, cs)
                 /\ Len(T.index) = T.len
                 /\ \A i \in DOMAIN cs : Len(T.c[cs[i]]) = T.len
At(T, col, label) == T.c[col][label + 1]

FiberCols == << "l", "b", "h", "x", "y", "z", "u", "v", "w", "G", "E" >>
NetCols   == << "A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB" >>
MeshCols  == << "fiber", "s", "x", "y", "z", "beam", "constraint" >>

(* Row labels 0 .. len - 1 in order.                                       *)
Labelled(T) == \A i \in 1 .. T.len : T.index[i] = i - 1

IsIntCol(T, col) == T.dtype[col] = "int"
SameCol(T, U, col) == T.c[col] = U.c[col]
(* Two tables with the same columns (in any order), labels and values.     *)
SameData(T, U) ==
  /\ T.len = U.len /\ T.index = U.index
  /\ Range(T.cols) = Range(U.cols)
  /\ \A k \in Range(T.cols) : T.dtype[k] = U.dtype[k] /\ T.c[k] = U.c[k]
SameTable(T, U) == SameData(T, U) /\ T.attrs = U.attrs

(* 0-based sequence order helpers *)
NonDecreasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] \preceq s[i + 1]
CloseSeq(s, r, tol) == Len(s) = Len(r) /\ \A i \in 1 .. Len(s) : Close(s[i], r[i], tol)
E9 == Q(1, 1000000000)
E6 == Q(1, 1000000)
E10 == E9 \otimes Q(1, 10)
E12 == E6 \otimes E6
=============================================================================
