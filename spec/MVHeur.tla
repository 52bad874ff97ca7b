------------------------------- MODULE MVHeur -------------------------------
(***************************************************************************)
(* The decision heuristics.                                                 *)
(*                                                                          *)
(* Activities are exact dyadic numbers.  After n learned clauses the stored *)
(* number is 2^n times the activity, so halving everything is a change of   *)
(* n and a clause learned as the n-th adds 2^n-weighted occurrences.  A     *)
(* number is a pair <<hi, lo>> standing for hi * 2^Limb + lo, because TLC's *)
(* integers have 32 bits; after MaxLearned learned clauses the activities   *)
(* are no longer tracked and every decision is accepted.                    *)
(***************************************************************************)
EXTENDS MVLogic

Limb == 20
MaxLearned == 42
Pow2(n) == 2 ^ n

Zero == <<0, 0>>
AddWeight(x, m, n) ==   \* x + m * 2^n
  IF n < Limb /\ m < 512
  THEN LET s == x[2] + m * Pow2(n) IN <<x[1] + s \div Pow2(Limb), s % Pow2(Limb)>>
  ELSE <<x[1] + m * Pow2(IF n < Limb THEN 0 ELSE n - Limb), x[2]>>
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

(* How often clause c counts for v=d and for v!=d under the heuristic. *)
(* A file literal is an equality when its set is a singleton; for two-valued *)
(* variables the sets of v=0 and v!=1 coincide, so clauses carry the syntax  *)
(* in a third field: <<v, S, isEq, d>>. *)
PosBump(heur, c, v, d) ==
  Cardinality({ k \in DOMAIN c : c[k][1] = v /\
      IF heur = "vsids" THEN c[k][3] = 1 /\ c[k][4] = d
      ELSE IF c[k][3] = 0 THEN d # c[k][4]
      ELSE IF c[k][3] = 1 THEN d = c[k][4]
      ELSE d \in c[k][2] })
NegBump(heur, c, v, d) ==
  IF heur = "vsids" THEN Cardinality({ k \in DOMAIN c : c[k][1] = v /\ c[k][3] = 0 /\ c[k][4] = d }) ELSE 0

Tracks(heur) == heur \in {"vsids", "vsids_pos", "vsids_set"}
BumpAll(heur, d, a, c, n) ==
  LET vs == { c[k][1] : k \in DOMAIN c } IN
  [v \in DOMAIN d |-> IF v \notin vs THEN a[v] ELSE
     [x \in Values(d, v) |->
        LET p == PosBump(heur, c, v, x)
            q == NegBump(heur, c, v, x)
        IN <<IF p = 0 THEN a[v][x][1] ELSE AddWeight(a[v][x][1], p, n),
             IF q = 0 THEN a[v][x][2] ELSE AddWeight(a[v][x][2], q, n)>>]]

NoActivity == [n |-> 0, score |-> <<>>]
InitialActivity(heur, d, f) ==
  IF ~Tracks(heur) THEN NoActivity
  ELSE [n |-> 0,
        score |-> FoldLeft(LAMBDA a, c : TLCEval(BumpAll(heur, d, a, c, 0)),
                           [v \in DOMAIN d |-> [x \in Values(d, v) |-> <<Zero, Zero>>]], f)]

LearnActivity(heur, d, a, c) ==
  IF ~Tracks(heur) \/ a.n >= MaxLearned THEN [a EXCEPT !.n = @ + 1]
  ELSE [n |-> a.n + 1, score |-> TLCEval(BumpAll(heur, d, a.score, c, a.n))]

-----------------------------------------------------------------------------
(* Default heuristic: occurrences in clauses not yet satisfied. *)
(* The number of v=d less the number of v!=d, for all v and d. *)
Tally(dom, live, cls) ==
  FoldLeft(LAMBDA acc, c :
             IF ClauseTrue(live, c) THEN acc
             ELSE TLCEval(FoldLeft(LAMBDA a, x : [a EXCEPT ![x[1]][x[4]] = IF x[3] = 1 THEN @ + 1 ELSE @ - 1], acc, c)),
           TLCEval([v \in DOMAIN dom |-> [d \in Values(dom, v) |-> 0]]), cls)

Earlier(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

(* l is <<v, S, isEq, d>>; no other candidate ranks before it. *)
Undecided(dom, live) == { u \in DOMAIN dom : Cardinality(live[u]) > 1 }
BestSurplus(dom, live, cls, l) ==
  /\ l[3] = 1
  /\ \E s \in { Tally(dom, live, cls) } : \E mine \in { s[l[1]][l[4]] } :
     \A v \in Undecided(dom, live) : \A d \in live[v] :
        s[v][d] < mine \/ (s[v][d] = mine /\ ~Earlier(<<v, d>>, <<l[1], l[4]>>))

BestActivity(dom, live, a, l, signed) ==
  LET val == IF l[3] = 2 THEN (CHOOSE x \in l[2] : TRUE) ELSE l[4]
      here == <<l[1], val>>
  IN
  /\ l[3] = 2 => Cardinality(l[2]) = 1
  /\ l[3] # 0 \/ signed
  /\ \E mine \in { IF l[3] = 0 THEN a.score[l[1]][val][2] ELSE a.score[l[1]][val][1] } :
     \A v \in Undecided(dom, live) : \E sc \in { a.score[v] } : \A d \in live[v] :
       \E s \in { sc[d] } :
       /\ ~Less(mine, s[1])
       /\ (s[1] = mine) => ~Earlier(<<v, d>>, here) /\ (<<v, d>> = here => l[3] # 0)
       /\ signed => ~Less(mine, s[2]) /\ ((s[2] = mine) => ~Earlier(<<v, d>>, here))

FirstOpenLiteral(live, cls, l) ==
  LET open == { i \in DOMAIN cls : ~ClauseTrue(live, cls[i]) } IN
  /\ open # {}
  /\ LET i == CHOOSE x \in open : \A y \in open : x <= y
         ks == { k \in DOMAIN cls[i] : UndefIn(live, cls[i][k]) }
     IN ks # {} /\ Same(cls[i][CHOOSE k \in ks : \A j \in ks : k <= j], l)

PreferredDecision(mode, dom, live, cls, norig, a, l) ==
  CASE mode.heur = "bk"        -> BestSurplus(dom, live, cls, l)
    [] mode.heur = "vsids"     -> a.n > MaxLearned \/ BestActivity(dom, live, a, l, TRUE)
    [] mode.heur = "vsids_pos" -> a.n > MaxLearned \/ BestActivity(dom, live, a, l, FALSE)
    [] mode.heur = "vsids_set" -> a.n > MaxLearned \/ BestActivity(dom, live, a, l, FALSE)
    [] mode.heur = "lazy" /\ mode.alg \in {"nc", "ch"} -> FirstOpenLiteral(live, cls, l)
    [] OTHER                   -> UndefIn(live, l) /\ \E i \in DOMAIN cls : \E k \in DOMAIN cls[i] : Same(cls[i][k], l)
=============================================================================
