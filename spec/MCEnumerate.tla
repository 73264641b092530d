---------------------------- MODULE MCEnumerate ----------------------------
(* Every small crystal, environment and request: what is enumerated, and    *)
(* the hop ends made from it.                                               *)
EXTENDS Enumerate
CONSTANTS MaxSites, NaLists, Doubled
VARIABLES T, req, f, hop
vars == <<T, req, f, hop>>
Pos == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 0>>>>
Maps == { [Na |-> a, Si |-> b, O |-> <<"O">>] : a \in NaLists, b \in {<<"Si", "P">>, <<"Si">>} }
L == { <<"Na", "X">>, <<"Na", "Mg", "X">>, <<"X", "Na">>, <<"Na", "Mg">> }
LBig == L \cup { <<"X", "Mg", "Na">>, <<"Na", "X", "Mg">> }
Crystal(k, s, m) == [lat |-> <<<<4, 0, 0>>, <<0, 4, 0>>, <<0, 0, 8>>>>, site |-> [i \in 1..k |-> [x |-> Pos[i], sp |-> s[i]]], map |-> m,
                     rank |-> [Na |-> 1, Si |-> 2, O |-> 0]]
NoReq == [S |-> {}, ask |-> {}, named |-> <<>>, cnt |-> <<>>]
None == [x \in {} |-> ""]
Env(r) == Sphere(T, 1, T.site[1].x, r, FALSE)
Init == /\ req = NoReq /\ f = None /\ hop = <<>>
        /\ \E k \in 2..MaxSites : T \in { Crystal(k, s, m) : s \in [1..k -> {"Na", "Si", "O"}], m \in Maps }
        /\ NumActive(T) > 1
Next == /\ UNCHANGED T
        /\ \/ /\ req = NoReq /\ UNCHANGED <<f, hop>>
              /\ \E r \in {4, 8}, ask \in {{}, {"Na", "X"}, {"Si", "P"}} :
                   LET S == TLCEval(Env(r)) IN
                   \E named \in {<<>>} \cup { <<n>> : n \in { e.p : e \in S } },
                      cnt \in {<<>>, [Na |-> 1, X |-> 1], [Na |-> 1, X |-> 0], [Si |-> 1, P |-> 0, Na |-> 1]} :
                     req' = [S |-> S, ask |-> ask, named |-> named, cnt |-> cnt] /\ Legal(T, ask, S, named, cnt)
           \/ /\ req # NoReq /\ f = None /\ UNCHANGED <<req, hop>>
              /\ f' \in Assignments(T, req.ask, req.S, req.named, req.cnt)
           \/ /\ f # None /\ hop = <<>> /\ UNCHANGED <<req, f>>
              /\ hop' \in { h \in (1..NumActive(T)) \X (1..NumActive(T)) : HopLegal(T, h[1], h[2]) }
Spec == Init /\ [][Next]_vars
Base == [n \in 1..NumActive(T) |-> 0]
Codes == Assigned(T, "chebyshev", Base, f)
\* requests without counts are the disjoint union of the requests with counts
V == Varied(T, req.ask, req.S, req.named)
Complete == (req = NoReq \/ f # None) \/
  LET all == TLCEval(Assignments(T, req.ask, req.S, req.named, NoCount)) IN
  /\ \A g \in all : DOMAIN g = V /\ \A n \in V : g[n] \in Offered(T, req.ask, n)
  /\ Assignments(T, req.ask, req.S, req.named, req.cnt) \subseteq all
  /\ \A g \in all : g \in Assignments(T, req.ask, req.S, req.named, [e \in { g[n] : n \in V } |-> CountIn(g, V, e)]) \/ V = {}
\* an assignment shows in the codes, and in nothing else
Shown == (f = None \/ hop # <<>>) \/
  \A n \in 1..NumActive(T) : SpOf(T, "chebyshev", n, Codes[n]) = (IF n \in DOMAIN f THEN f[n] ELSE AllowedAt(T, n)[1])
\* the ends of a hop differ by one ion, and nothing else moved
Ends == hop = <<>> \/
  LET a == hop[1]  b == hop[2]
      s == Atoms(T, "chebyshev", Start(T, "chebyshev", Codes, a, b))
      e == Atoms(T, "chebyshev", IF Doubled THEN [Start(T, "chebyshev", Codes, a, b) EXCEPT ![a] = 1 - @, ![b] = 1 - @] ELSE End(T, "chebyshev", Codes, a, b))
      xa == T.site[NthActive(T, a)].x  xb == T.site[NthActive(T, b)].x  m == AllowedAt(T, a)[1]
  IN  /\ s \ e = { [x |-> xa, sp |-> m] } /\ e \ s = { [x |-> xb, sp |-> m] }
      /\ ~\E y \in s : y.x = xb
=============================================================================
