------------------------------- MODULE KMCOps -----------------------------
(* The kMC engine: rates are cached per event and refreshed only for the    *)
(* events that depend on the executed one; ions are tracked individually.   *)
(*                                                                          *)
(* Extra fields of a system `sys`                                           *)
(*   bm   barrier model (module Barrier)                                    *)
(*   L    three integer lattice vectors     pos  integer site positions     *)
(*   sh   shells of periodic images to consider for a hop                   *)
(*   np   number of sites that define one pass                              *)
EXTENDS Barrier, TLC

VAdd(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
VSub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
VMul(k, a) == <<k*a[1], k*a[2], k*a[3]>>
Norm2(a)   == a[1]*a[1] + a[2]*a[2] + a[3]*a[3]
Zero3      == <<0, 0, 0>>

\* All periodic images of the vector d (enough shells for moderately skewed cells)
Images(sys, d) ==
  { VAdd(d, VAdd(VMul(i, sys.L[1]), VAdd(VMul(j, sys.L[2]), VMul(k, sys.L[3])))) :
       i \in (-sys.sh)..sys.sh, j \in (-sys.sh)..sys.sh, k \in (-sys.sh)..sys.sh }

MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x

\* The shortest displacement vectors from site a to site b (a set: ties)
MinImages(sys, a, b) ==
  LET im == Images(sys, VSub(sys.pos[b], sys.pos[a]))
      m  == MinOf({ Norm2(x) : x \in im })
  IN  { x \in im : Norm2(x) = m }

SortedSeq(S) ==
  LET RECURSIVE F(_)
      F(T) == IF T = {} THEN <<>>
              ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z
                   IN  <<x>> \o F(T \ {x})
  IN  F(S)

RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)

\* which cached rates an executed event refreshes
Refresh(s, e) == IF NonLocal(s) THEN Events(s) ELSE Deps(s, e)

\* ion bookkeeping of one executed hop
IonOf(s, o, e, loc)      == CHOOSE k \in 1..Len(loc) : loc[k] = Src(s, o, e)
NextIons(s, o, e, loc)   == [loc EXCEPT ![IonOf(s, o, e, loc)] = Dst(s, o, e)]
NextHops(s, o, e, loc, h) == [h EXCEPT ![IonOf(s, o, e, loc)] = @ + 1]
NextDisps(s, o, e, loc, d) ==
  { [d EXCEPT ![IonOf(s, o, e, loc)] = VAdd(@, v)] :
        v \in MinImages(s, Src(s, o, e), Dst(s, o, e)) }

=============================================================================
