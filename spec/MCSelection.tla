---------------------------- MODULE MCSelection ----------------------------
EXTENDS Selection, TLC
CONSTANTS N, MaxW
VARIABLES w, u, k
D(x) == 2 * W(x)                       \* a grid on which every rate is exact
Init == /\ w \in { x \in [1..N -> 0..MaxW] : W(x) > 0 }
        /\ u \in 0..(D(w) - 1)
        /\ k = 0
Next == /\ k = 0 /\ k' = Pick(w, u, D(w)) /\ UNCHANGED <<w, u>>
Spec == Init /\ [][Next]_<<w, u, k>>
\* an event that cannot happen is never picked
NeverZero == k # 0 => w[k] > 0
\* the share of u that picks an event is exactly its share of the total rate
Exact == \A e \in 1..N :
   Cardinality({ x \in 0..(D(w) - 1) : Pick(w, x, D(w)) = e }) * W(w) = w[e] * D(w)
=============================================================================
