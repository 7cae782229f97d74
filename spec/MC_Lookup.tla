-------------------------------- MODULE MC_Lookup -------------------------------
(***************************************************************************)
(* Move lookup: every way to define the amounts 1, 2, -1 and -2 of one     *)
(* family, directly, derived, both or not at all.  Written to IOEnv.OUT.   *)
(***************************************************************************)
EXTENDS KPuzzle, Json, IOUtils

CONSTANT Level

Fams == {<<82>>, S_SLASH} \cup (IF Level = 1 THEN {} ELSE {S_U_SQ})
Prefs == {<<>>, << <<50>> >>}
Amts == <<1, 2, -1, -2>>
OneOrbit == <<[n |-> "A", np |-> 4, no |-> 3]>>
Perms == << <<1, 2, 3, 0>>, <<1, 0, 2, 3>>, <<2, 0, 1, 3>>, <<3, 1, 0, 2>> >>
TData(i) == <<[o |-> "A", p |-> Perms[i], d |-> <<i % 3, 1, 0, 2>>]>>
DefaultData == <<[o |-> "A", p |-> <<0, 1, 2, 3>>, x |-> <<0, 0, 0, 0>>, m |-> <<>>, hm |-> FALSE]>>
Base == MoveNode(<<>>, <<66>>, 1)

DefFrom(fam, pre, f) ==
    LET dir == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : f[i] \in {"direct", "both"})
        der == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : f[i] \in {"derived", "both"})
        K(i) == MoveNode(pre, fam, Amts[i])
    IN [name |-> "l", orbits |-> OneOrbit, dflt |-> DefaultData, hasd |-> TRUE,
        moves |-> <<[k |-> Base, t |-> <<[o |-> "A", p |-> <<0, 2, 3, 1>>, d |-> <<1, 1, 2, 0>>]>>]>>
                  \o [j \in DOMAIN dir |-> [k |-> K(dir[j]), t |-> TData(dir[j])]],
        derived |-> [j \in DOMAIN der |-> [k |-> K(der[j]), a |-> <<[Base EXCEPT !.amt = der[j] + 1]>>]]]

Universe == {<<fam, pre, f>> : fam \in Fams, pre \in Prefs, f \in [1..4 -> {"no", "direct", "derived", "both"}]}
Queries == {-3, -2, -1, 0, 1, 2, 3}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[def |-> DefFrom(u[1], u[2], u[3]), fam |-> u[1], pre |-> u[2]] : u \in Universe}))

VARIABLE u
Init == u \in Universe
Spec == Init /\ [][UNCHANGED u]_u

Def == DefFrom(u[1], u[2], u[3])
Mv(n) == MoveNode(u[2], u[1], n)
Defined(n, kind) == \E i \in 1..4 : Amts[i] = n /\ u[3][i] \in {kind, "both"}
IsSlash == u[1] = S_SLASH /\ u[2] = <<>>

(* The order of preference, spelled out once more without Resolve.          *)
Wanted(n) ==
    CASE Defined(1, "direct") -> <<"direct", n>>
      [] Defined(1, "derived") -> <<"derived", n>>
      [] Defined(n, "direct") -> <<"direct", 1>>
      [] Defined(n, "derived") -> <<"derived", 1>>
      [] Defined(-n, "direct") /\ ~IsSlash -> <<"direct", -1>>
      [] Defined(-n, "derived") /\ ~IsSlash -> <<"derived", -1>>
      [] OTHER -> <<"none", 0>>
InOrder == \A n \in Queries : LET r == Resolve(Def, Mv(n)) IN <<r.src, r.rel>> = Wanted(n)
(* Another prefix or another family is never touched.                       *)
Distinct == LET other == MoveNode(<< <<51>> >>, u[1], 1)
                longer == MoveNode(u[2], Append(u[1], 97), 1)
            IN Resolve(Def, other).src = "none" /\ Resolve(Def, longer).src = "none"
Total == \A n \in Queries : LET r == Resolve(Def, Mv(n)) IN EvalMove(Def, Mv(n)).ok = (r.src # "none")
================================================================================
