------------------------------ MODULE MVFormat ------------------------------
(***************************************************************************)
(* The file formats: extended DIMACS for finite domains, DIMACS CNF for      *)
(* booleans, and the output of the quadratic encoding.                       *)
(*                                                                          *)
(* A file is a sequence of lines, each already split into words:             *)
(*   [k |-> "c", s |-> text]         comment (first character c)             *)
(*   [k |-> "p", w, a, b]            header p w a b                          *)
(*   [k |-> "d", v, n]               domain line                             *)
(*   [k |-> "b"]                     blank line                              *)
(*   [k |-> "x", t |-> words]        anything else, a clause                 *)
(*   [k |-> "?", s |-> text]         not understood                          *)
(* A word is <<n>> (an integer), <<v, form, d>> (form 1 for v=d, 0 for v!=d) *)
(* or <<v, 3, d>> for the quadratic encoding's -v=d.                         *)
(***************************************************************************)
EXTENDS MVLogic

Of(lines, kind) == SelectSeq(lines, LAMBDA l : l.k = kind)
Understood(lines) == \A i \in DOMAIN lines : lines[i].k # "?"

(* The words of a clause up to its end mark. *)
RECURSIVE UpToZero(_)
UpToZero(t) == IF t = <<>> \/ t[1] = <<0>> THEN <<>> ELSE <<t[1]>> \o UpToZero(Tail(t))
Ended(t) == t # <<>> /\ t[Len(t)] = <<0>> /\ \A k \in 1 .. (Len(t) - 1) : t[k] # <<0>>

-----------------------------------------------------------------------------
(* Finite-domain files. *)
FLit(dom, w) == IF w[2] = 1 THEN Eq(w[1], w[3]) ELSE Neq(dom, w[1], w[3])
DomOf(lines) == LET ds == Of(lines, "d") IN [k \in DOMAIN ds |-> ds[k].n]
FRead(lines) ==
  LET dom == DomOf(lines)
      xs == Of(lines, "x")
  IN [dom |-> dom,
      cls |-> [k \in DOMAIN xs |-> LET t == UpToZero(xs[k].t) IN [m \in DOMAIN t |-> FLit(dom, t[m])]]]

(* Declared in order, every literal about a declared variable, all clauses ended: enough to say what the *)
(* file means (v=d holds in no assignment when d is outside v's domain). *)
FMeaningful(lines) ==
  /\ Understood(lines)
  /\ Len(Of(lines, "p")) = 1
  /\ LET ds == Of(lines, "d")
         xs == Of(lines, "x")
     IN /\ \A k \in DOMAIN ds : ds[k].v = k /\ ds[k].n >= 1
        /\ \A k \in DOMAIN xs :
             /\ Ended(xs[k].t)
             /\ LET t == UpToZero(xs[k].t) IN
                \A m \in DOMAIN t : Len(t[m]) = 3 /\ t[m][2] \in {0, 1} /\ t[m][1] \in DOMAIN ds

(* And every value within its domain. *)
FWellFormed(lines) ==
  /\ FMeaningful(lines)
  /\ LET ds == Of(lines, "d")
         xs == Of(lines, "x")
     IN \A k \in DOMAIN xs : LET t == UpToZero(xs[k].t) IN \A m \in DOMAIN t : t[m][3] \in 0 .. (ds[t[m][1]].n - 1)

(* What a problem is to each solver, whatever its layout. *)
Normal(prog, problem) ==
  [problem EXCEPT !.cls = [k \in DOMAIN @ |-> IF prog = "bitvec" THEN MergeVars(@[k]) ELSE Dedup(@[k])]]

-----------------------------------------------------------------------------
(* Boolean files: clauses are sequences of nonzero integers. *)
BWellFormed(lines) ==
  /\ Understood(lines)
  /\ Len(Of(lines, "p")) = 1 /\ Of(lines, "d") = <<>>
  /\ LET xs == Of(lines, "x") IN
     \A k \in DOMAIN xs : Ended(xs[k].t) /\ \A m \in DOMAIN xs[k].t : Len(xs[k].t[m]) = 1
BClauses(lines) ==
  LET xs == Of(lines, "x") IN
  [k \in DOMAIN xs |-> LET t == UpToZero(xs[k].t) IN [m \in DOMAIN t |-> t[m][1]]]
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE MaxOf(_, _)
MaxOf(S, m) == IF S = {} THEN m ELSE LET x == CHOOSE x \in S : TRUE IN MaxOf(S \ {x}, IF x > m THEN x ELSE m)
BUsed(cs) == UNION { { Abs(cs[k][m]) : m \in DOMAIN cs[k] } : k \in DOMAIN cs }
BVars(lines) == MaxOf(BUsed(BClauses(lines)), Of(lines, "p")[1].a)

(* A boolean problem as a finite-domain one: value 1 is true. *)
BLit(n) == IF n > 0 THEN Eq(n, 1) ELSE Eq(-n, 0)
BProblem(nv, cs) ==
  [dom |-> [v \in 1 .. nv |-> 2], cls |-> [k \in DOMAIN cs |-> [m \in DOMAIN cs[k] |-> BLit(cs[k][m])]]]
=============================================================================
