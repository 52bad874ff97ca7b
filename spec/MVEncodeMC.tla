----------------------------- MODULE MVEncodeMC -----------------------------
(***************************************************************************)
(* The encodings themselves, model-checked, on every problem considered:     *)
(* those of the file PROBLEMS, and one variable of up to Widest values.      *)
(*                                                                          *)
(* Linear is acceptable by LinearOK, and LinearOK notices a missing clause;  *)
(* the solutions of the linear encoding, taken back through b2f, select the  *)
(* solutions of the problem and all of them; so do those of the quadratic    *)
(* encoding, whose list of constraints AllConstraints accepts only whole.    *)
(***************************************************************************)
EXTENDS MVConvert

CONSTANT Widest
VARIABLE p
none == <<store, origin, i>>

WLit(d, j) == IF j[2] = 1 THEN Eq(j[1], j[3]) ELSE Neq(d, j[1], j[3])
Listed == LET t == ndJsonDeserialize(IOEnv.PROBLEMS) IN
  { [dom |-> t[j].dom, cls |-> [k \in DOMAIN t[j].cls |-> [x \in DOMAIN t[j].cls[k] |-> WLit(t[j].dom, t[j].cls[k][x])]]]
    : j \in DOMAIN t }
Considered == Listed \cup { [dom |-> <<n>>, cls |-> <<>>] : n \in 1 .. Widest }

InitMC == p \in Considered /\ store = <<>> /\ origin = <<>> /\ i = 1
SpecMC == InitMC /\ [][UNCHANGED <<p, none>>]_<<p, none>>

Listing(S) == SetToSeq({ SetToSeq(c) : c \in S })
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
LinearClauses == LET e == Linear(p) IN Listing(e.values) \o [k \in DOMAIN e.clauses |-> SetToSeq(e.clauses[k])]

Solutions == { a \in AllAssignments(p.dom) : Satisfies(a, p.cls) }

LinearFits ==
  LET e == Linear(p)
      cs == LinearClauses
      n == Cardinality(e.values)
  IN /\ Len(cs) = e.count
     /\ LinearOK(p, e.vars, cs, {})
     /\ \A k \in DOMAIN p.cls :
          LinearOK(p, e.vars, Without(cs, n + k), {}) => Implies(p.dom, Without(p.cls, k), p.cls[k])

ThereAndBack ==
  LET b == BProblem(LinearVars(p.dom), LinearClauses)
      good == { m \in AllAssignments(b.dom) : Satisfies(m, b.cls) }
      idx == Indexes(p.dom)
      back(m) == [v \in DOMAIN p.dom |-> CHOOSE d \in Selected(p.dom, idx, Truth(m), v) : TRUE]
  IN LinearVars(p.dom) <= 12 =>
       /\ \A m \in good : ModelThrough(p, m)
       /\ { back(m) : m \in good } = Solutions
       /\ (good = {}) = ~Satisfiable(p.dom, p.cls)

QHolds(T, c) == \E w \in c : (w[3] = 1) = (<<w[1], w[2]>> \in T)
QuadFits ==
  LET e == Quadratic(p)
      all == QuadConstraints(p)
      list == SetToSeq(all)
      pairs == UNION { { <<v, d>> : d \in Values(p.dom, v) } : v \in DOMAIN p.dom }
  IN /\ e.count = Cardinality(all) + Len(p.cls)
     /\ AllConstraints(p, list)
     /\ \A k \in DOMAIN list : ~AllConstraints(p, Without(list, k))
     /\ Cardinality(pairs) <= 9 =>
          { T \in SUBSET pairs : (\A c \in all : QHolds(T, c)) /\ \A k \in DOMAIN e.clauses : QHolds(T, e.clauses[k]) }
          = { { <<v, a[v]>> : v \in DOMAIN p.dom } : a \in Solutions }
=============================================================================
