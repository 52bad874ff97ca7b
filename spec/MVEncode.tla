------------------------------ MODULE MVEncode ------------------------------
(***************************************************************************)
(* The three converters.                                                    *)
(*                                                                          *)
(* Linear and Quadratic say exactly which clauses the encodings consist of;  *)
(* LinearOK says what makes a boolean file an acceptable linear encoding,    *)
(* without prescribing its clauses.  MVEncodeMC checks that Linear meets     *)
(* LinearOK, and Quadratic its purpose, on every small problem.              *)
(***************************************************************************)
EXTENDS MVFormat

-----------------------------------------------------------------------------
(* b2f *)
Boolean2Finite(lines) == BProblem(BVars(lines), BClauses(lines))

-----------------------------------------------------------------------------
(* linenc: which boolean variable says v=d. *)
BooleansFor(n) == IF n <= 2 THEN 1 ELSE 2 * n - 1
RECURSIVE IndexesFrom(_, _)
IndexesFrom(dom, next) ==
  IF dom = <<>> THEN <<>> ELSE <<next>> \o IndexesFrom(Tail(dom), next + BooleansFor(dom[1]))
Indexes(dom) == IndexesFrom(dom, 1)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
LinearVars(dom) == SumOf([v \in DOMAIN dom |-> BooleansFor(dom[v])])

(* The boolean literal that says v=d, and the one that says v!=d. *)
Says(dom, idx, v, d) ==
  IF dom[v] > 2 THEN idx[v] + d ELSE IF d = 1 THEN idx[v] ELSE -idx[v]
LinearLit(dom, idx, l) == IF l[3] = 1 THEN Says(dom, idx, l[1], l[4]) ELSE -Says(dom, idx, l[1], l[4])

(* The i-th auxiliary (0-based) is true when some value up to i is taken; *)
(* value i+1 is excluded as soon as it is.                                 *)
OneValue(n, x) ==
  IF n = 1 THEN { {-x} }
  ELSE IF n = 2 THEN {}
  ELSE LET t == x + n IN
       { { x + d : d \in 0 .. (n - 1) }, { -t, x }, { t, -x } }
       \union { { -(t + j + 1), t + j, x + j + 1 } : j \in 0 .. (n - 3) }
       \union { { t + j + 1, -(t + j) } : j \in 0 .. (n - 3) }
       \union { { t + j + 1, -(x + j + 1) } : j \in 0 .. (n - 3) }
       \union { { -(t + j), -(x + j + 1) } : j \in 0 .. (n - 2) }
OneValueCount(n) == IF n = 1 THEN 1 ELSE IF n = 2 THEN 0 ELSE 1 + 2 + 3 * (n - 2) + (n - 1)

Linear(p) ==
  LET idx == Indexes(p.dom) IN
  [vars |-> LinearVars(p.dom),
   count |-> SumOf([v \in DOMAIN p.dom |-> OneValueCount(p.dom[v])]) + Len(p.cls),
   values |-> UNION { OneValue(p.dom[v], idx[v]) : v \in DOMAIN p.dom },
   clauses |-> [k \in DOMAIN p.cls |-> { LinearLit(p.dom, idx, p.cls[k][m]) : m \in DOMAIN p.cls[k] }]]
LinearSet(p) == LET e == Linear(p) IN e.values \union { e.clauses[k] : k \in DOMAIN e.clauses }

(* The values an assignment of the booleans (a set of true ones) selects. *)
Selected(dom, idx, truth, v) == { d \in Values(dom, v) : LET b == Says(dom, idx, v, d) IN
                                     IF b > 0 THEN b \in truth ELSE -b \notin truth }

(* Acceptable: nv booleans, clauses cs (sequences of integers).  probes are  *)
(* assignments of the source to try on large problems; all are tried on      *)
(* small ones.                                                               *)
RECURSIVE AllAssignments(_)
AllAssignments(dom) ==
  IF dom = <<>> THEN { <<>> }
  ELSE { <<d>> \o a : d \in 0 .. (dom[1] - 1), a \in AllAssignments(Tail(dom)) }
RECURSIVE ProductUpTo(_, _)
ProductUpTo(dom, m) == IF dom = <<>> \/ m > 400 THEN m ELSE ProductUpTo(Tail(dom), m * dom[1])

LinearOK(p, nv, cs, probes) ==
  LET dom == p.dom
      idx == Indexes(dom)
      b == TLCEval(BProblem(nv, cs))
      Possible(extra) == ~Contradiction(FoldLeft(Narrow, Everything(b.dom), extra))
                         /\ SatFrom(FoldLeft(Narrow, Everything(b.dom), extra), b.cls)
      Bit(v, d) == BLit(Says(dom, idx, v, d))
      NotBit(v, d) == BLit(-Says(dom, idx, v, d))
      tries == IF ProductUpTo(dom, 1) <= 400 THEN AllAssignments(dom) ELSE probes
  IN \* exactly one value
     /\ \A v \in DOMAIN dom :
          /\ ~Possible([x \in 1 .. dom[v] |-> NotBit(v, x - 1)])
          /\ \A d \in Values(dom, v), e \in Values(dom, v) : d < e => ~Possible(<<Bit(v, d), Bit(v, e)>>)
     \* the selected values satisfy the source
     /\ \A k \in DOMAIN p.cls :
          ~Possible([m \in DOMAIN p.cls[k] |-> BLit(-LinearLit(dom, idx, p.cls[k][m]))])
     \* nothing is lost
     /\ \A a \in tries :
          Satisfies(a, p.cls) =>
            Possible([v \in DOMAIN dom |-> Bit(v, a[v])])

-----------------------------------------------------------------------------
(* quadenc: clauses of signed values <<v, d, sign>>. *)
QVar(n, v) == <<{ <<v, d, 1>> : d \in 0 .. (n - 1) }>>
QPairs(n, v) == { { <<v, d, 0>>, <<v, e, 0>> } : d \in 0 .. (n - 1), e \in 0 .. (n - 1) } \ { { <<v, d, 0>> } : d \in 0 .. (n - 1) }
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MinWord(c) == CHOOSE a \in c : \A b \in c : ~Before(b, a)
MaxWord(c) == CHOOSE a \in c : \A b \in c : ~Before(a, b)
QLit(l) == <<l[1], l[4], l[3]>>
Quadratic(p) ==
  [values |-> SumOf(p.dom),
   count |-> SumOf([v \in DOMAIN p.dom |-> 1 + (p.dom[v] * (p.dom[v] - 1)) \div 2]) + Len(p.cls),
   clauses |-> [k \in DOMAIN p.cls |-> { QLit(p.cls[k][m]) : m \in DOMAIN p.cls[k] }]]

QuadConstraints(p) == UNION { { QVar(p.dom[v], v)[1] } \union QPairs(p.dom[v], v) : v \in DOMAIN p.dom }

(* c is one of the constraints; as there are exactly count of them, a list of *)
(* that many different ones is the complete list.                              *)
IsConstraint(p, c) ==
  \E w \in c :
    LET v == w[1] IN
    /\ v \in DOMAIN p.dom
    /\ IF w[3] = 1
       THEN c = QVar(p.dom[v], v)[1]
       ELSE Cardinality(c) = 2 /\ \A u \in c : u[1] = v /\ u[3] = 0 /\ u[2] \in Values(p.dom, v)
QuadCount(p) == SumOf([v \in DOMAIN p.dom |-> 1 + (p.dom[v] * (p.dom[v] - 1)) \div 2])
AllConstraints(p, cs) ==
  /\ Len(cs) = QuadCount(p)
  /\ \A k \in DOMAIN cs : IsConstraint(p, cs[k])
  /\ Cardinality({ <<MinWord(cs[k]), MaxWord(cs[k]), Cardinality(cs[k])>> : k \in DOMAIN cs }) = Len(cs)

(* The clauses of a file written by quadenc. *)
QWord(w) == <<w[1], w[3], IF w[2] = 3 THEN 0 ELSE 1>>
QRead(lines) ==
  LET xs == Of(lines, "x") IN
  [k \in DOMAIN xs |-> LET t == UpToZero(xs[k].t) IN { QWord(t[m]) : m \in DOMAIN t }]
QUnderstood(lines) ==
  /\ Understood(lines) /\ Len(Of(lines, "p")) = 1 /\ Of(lines, "d") = <<>>
  /\ LET xs == Of(lines, "x") IN
     \A k \in DOMAIN xs : LET t == UpToZero(xs[k].t) IN \A m \in DOMAIN t : Len(t[m]) = 3 /\ t[m][2] \in {1, 3}
=============================================================================
