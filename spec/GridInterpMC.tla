---- MODULE GridInterpMC ----
(* Sanity of the interpolation rule: exact for affine data, within the range of the cell, exact at nodes. *)
EXTENDS GridInterp, TLC
CONSTANTS Vals
VARIABLES p, data, aff
Axes == <<<<"0", "1", "3">>, <<"-1", "0", "1/2">>>>
C(q, near) == [dim |-> 2, ax |-> Axes, nearest |-> near, fill |-> "nan", tgt |-> <<q>>, norm |-> FALSE]
Xs == {"-1", "0", "1/3", "1", "2", "3", "4"}
Ys == {"-2", "-1", "-1/4", "0", "1/4", "1/2", "1"}
Init == /\ p \in {<<x, y>> : x \in Xs, y \in Ys}
        /\ \/ /\ aff \in [{1, 2, 3} -> Vals]
              /\ data = [i \in 1..3 |-> [j \in 1..3 |-> RSum(<<aff[1], RMul(aff[2], Axes[1][i]), RMul(aff[3], Axes[2][j])>>)]]
           \/ /\ aff = <<>>
              /\ \E d \in [{1, 2, 3, 4} -> Vals] :
                   data = [i \in 1..3 |-> [j \in 1..3 |-> R(d[1 + ((i + 2*j) % 4)])]]
Next == UNCHANGED <<p, data, aff>>
Spec == Init /\ [][Next]_<<p, data, aff>>
V == TwoValues(C(p, FALSE), p, data)
All == {data[i][j] : i \in 1..3, j \in 1..3}
AffineExact == (Inside(C(p, FALSE), p) /\ aff # <<>>) =>
    V = {RSum(<<aff[1], RMul(aff[2], p[1]), RMul(aff[3], p[2])>>)}
Bounded == Inside(C(p, FALSE), p) => \A x \in V : (\E y \in All : RLe(y, x)) /\ (\E y \in All : RLe(x, y))
NodeExact == \A i \in 1..3, j \in 1..3 : p = <<Axes[1][i], Axes[2][j]>> => V = {data[i][j]}
OutsideNearest == ~Inside(C(p, TRUE), p) =>
    /\ \E y \in All : GIFails(GIInit(C(p, TRUE)), [ev |-> "eval", data |-> data, out |-> <<y>>]) = {}
    /\ GIFails(GIInit(C(p, TRUE)), [ev |-> "eval", data |-> data, out |-> <<"nan">>]) # {}
    /\ GIFails(GIInit(C(p, FALSE)), [ev |-> "eval", data |-> data, out |-> <<"nan">>]) = {}
====
