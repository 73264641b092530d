---------------------------- MODULE MCTransport ----------------------------
(* All hop histories of up to MaxHops hops of two ions on a square grid:    *)
(* relations between the transport coefficients that must hold whatever the *)
(* history.                                                                 *)
EXTENDS Transport
CONSTANTS MaxHops, NIons
VARIABLES d, h, tn
vars == <<d, h, tn>>
Dirs == { <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>> }
Init == /\ d = [i \in 1..NIons |-> <<0,0,0>>] /\ h = [i \in 1..NIons |-> 0] /\ tn = 0
RECURSIVE HopSum(_)
HopSum(n) == IF n = 0 THEN 0 ELSE h[n] + HopSum(n - 1)
Next == \E i \in 1..NIons, u \in Dirs, dt \in 1..2 :
  /\ HopSum(NIons) < MaxHops
  /\ d' = [d EXCEPT ![i] = <<@[1] + u[1], @[2] + u[2], @[3] + u[3]>>]
  /\ h' = [h EXCEPT ![i] = @ + 1]
  /\ tn' = tn + dt
Spec == Init /\ [][Next]_vars
X == [d |-> d, h |-> h, dim |-> 2, a |-> 1, v |-> 10, q |-> 1, t |-> 3, tn |-> tn, td |-> 1]
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
\* before any time has passed nothing can be said about rates
NoTime == tn = 0 => DJ(X) = NaN /\ DT(X) = NaN /\ Sigma(X) = NaN /\ Haven(X) = NaN
\* the collective diffusivity is bounded by N times the tracer one
CauchySchwarz == tn > 0 => Leq(DJ(X), FMul(<<NIons, 1>>, DT(X)))
\* an ion cannot get further than it hopped
HopBound == \A i \in 1..NIons : Sq(d[i]) <= h[i] * h[i]
CorrBound == Leq(Corr(X), <<MaxHops, 1>>) /\ Corr(X)[1] >= 0
\* conductivity and collective diffusivity vanish together; Haven ratio recovers the tracer one
NernstEinstein == tn > 0 => (Sigma(X)[1] = 0 <=> DJ(X)[1] = 0)
HavenDef == tn > 0 /\ DJ(X)[1] # 0 => FMul(Haven(X), DJ(X)) = DT(X)
\* a single moving ion seen alone has Haven ratio one
Single == NIons = 1 /\ tn > 0 /\ DJ(X)[1] # 0 => Haven(X) = <<1, 1>>
=============================================================================
