------------------------------ MODULE MVConvert ------------------------------
(***************************************************************************)
(* Sessions with the converters.  The state is the store of files written    *)
(* so far: what each of them says, and what was asked.  A step runs one tool *)
(* on a file of the store (or one the user wrote) and puts its output there. *)
(* Guards carry the properties they belong to; only the enforced one binds.  *)
(***************************************************************************)
EXTENDS MVEncode, Json, IOUtils

VARIABLES store,   \* name |-> lines
          origin,  \* name |-> the problem the file descends from, and how
          i

vars == <<store, origin>>
Enforced == { IOEnv.PROPERTY }
Trace == ndJsonDeserialize(IOEnv.TRACE)
G(labels, cond) == ((labels \intersect Enforced # {}) => cond) = TRUE

Put(f, k, x) == TLCEval([n \in DOMAIN f \union {k} |-> IF n = k THEN x ELSE f[n]])

(* The user writes a file. *)
Write(e) ==
  /\ store' = Put(store, e.out, e.lines)
  /\ origin' = Put(origin, e.out, [kind |-> "source"])

Ran(e) == e.rc = 0

(* The generator writes a file; must: a satisfiable problem was asked for. *)
Generate(e) ==
  /\ G({"C28"}, e.rc = 0 /\ IF e.bool THEN BWellFormed(e.lines) ELSE FWellFormed(e.lines))
  /\ store' = Put(store, e.out, e.lines)
  /\ origin' = Put(origin, e.out, [kind |-> "bench", must |-> e.must, bool |-> e.bool])

SameClauses(cs, ds) == Len(cs) = Len(ds) /\ \A k \in DOMAIN cs : Lits(cs[k]) = Lits(ds[k])
B2F(e) ==
  LET want == TLCEval(Boolean2Finite(store[e.in])) IN
  /\ G({"C16"}, Ran(e) /\ FWellFormed(e.lines))
  /\ LET got == TLCEval(IF FWellFormed(e.lines) THEN FRead(e.lines) ELSE [dom |-> <<>>, cls |-> <<>>]) IN
     G({"C16"}, got.dom = want.dom /\ SameClauses(got.cls, want.cls))
  /\ G({"C19"}, Ran(e))
  /\ store' = Put(store, e.out, e.lines)
  /\ G({"C28"}, Ran(e))
  /\ origin' = Put(origin, e.out, IF e.in \in DOMAIN origin /\ origin[e.in].kind = "linear"
                                  THEN [kind |-> "back", from |-> origin[e.in].from]
                                  ELSE IF e.in \in DOMAIN origin /\ origin[e.in].kind = "bench"
                                  THEN [kind |-> "bench", must |-> origin[e.in].must, bool |-> FALSE]
                                  ELSE [kind |-> "b2f"])

Linenc(e) ==
  LET p == TLCEval(FRead(store[e.in]))
      want == TLCEval(Linear(p))
      read == TLCEval(IF BWellFormed(e.lines) THEN BClauses(e.lines) ELSE <<>>)
      head == Of(e.lines, "p")
      asWritten == TLCEval({ { read[k][m] : m \in DOMAIN read[k] } : k \in DOMAIN read })
  IN
  /\ G({"C17"}, Ran(e) /\ BWellFormed(e.lines) /\ e.lines[1].k = "p")
  /\ G({"C17"}, head[1].w = "cnf" /\ head[1].b = Len(read) /\ head[1].a = want.vars
                /\ \A n \in BUsed(read) : n \in 1 .. want.vars)
  /\ G({"C17"}, IF asWritten = LinearSet(p) THEN TRUE ELSE LinearOK(p, want.vars, read, e.probes))
  /\ G({"C19", "C28"}, Ran(e))
  /\ store' = Put(store, e.out, e.lines)
  /\ origin' = Put(origin, e.out, [kind |-> "linear", from |-> e.in])

Quadenc(e) ==
  LET p == TLCEval(FRead(store[e.in]))
      want == TLCEval(Quadratic(p))
      read == TLCEval(IF QUnderstood(e.lines) THEN QRead(e.lines) ELSE <<>>)
      head == Of(e.lines, "p")
      n == want.count - Len(want.clauses)
  IN
  /\ G({"C18", "C28"}, Ran(e) /\ QUnderstood(e.lines))
  /\ G({"C18"}, head[1].w = "cnf" /\ head[1].a = want.values /\ head[1].b = want.count /\ Len(read) = want.count)
  /\ G({"C18"}, AllConstraints(p, SubSeq(read, 1, n)))
  /\ G({"C18"}, SubSeq(read, n + 1, Len(read)) = want.clauses)
  /\ store' = Put(store, e.out, e.lines)
  /\ origin' = Put(origin, e.out, [kind |-> "quad", from |-> e.in])

-----------------------------------------------------------------------------
(* Solving a file.  e: verdict, model (a sequence of values, <<>> if none). *)
ModelFits(p, m) == LegalAssignment(p.dom, m) /\ Satisfies(m, p.cls)

(* What a model of a file encoded and converted back says about the source. *)
Truth(m) == { n \in DOMAIN m : m[n] = 1 }
ModelThrough(p, m) ==
  LET idx == Indexes(p.dom) IN
  /\ DOMAIN m = 1 .. LinearVars(p.dom)
  /\ \A v \in DOMAIN p.dom : Cardinality(Selected(p.dom, idx, Truth(m), v)) = 1
  /\ Satisfies([v \in DOMAIN p.dom |-> CHOOSE d \in Selected(p.dom, idx, Truth(m), v) : TRUE], p.cls)

Solve(e) ==
  LET f == store[e.in]
      o == origin[e.in]
  IN
  \* b2f's output is a problem the solver accepts, with the right verdict
  /\ o.kind = "b2f" =>
       /\ G({"C16"}, e.rc = 0 /\ e.verdict \in {"SAT", "UNSAT"})
       /\ G({"C16"}, LET p == Boolean2Finite(store[e.source])
                     IN IF e.verdict = "SAT" THEN ModelFits(p, e.model)
                        ELSE e.decide => ~Satisfiable(p.dom, p.cls))
  \* the source itself: remember the verdict
  /\ o.kind = "source" => G({"C19"}, e.rc = 0 /\ e.verdict \in {"SAT", "UNSAT"})
  \* a generated benchmark (or its translation by b2f): whatever solves it, one verdict, and the one asked for
  /\ o.kind = "bench" =>
       LET p == TLCEval(FRead(f)) IN
       /\ G({"C28"}, e.rc = 0 /\ e.verdict \in {"SAT", "UNSAT"})
       /\ G({"C28"}, o.must => e.verdict = "SAT")
       /\ G({"C28"}, "verdict" \in DOMAIN o => e.verdict = o.verdict)
       /\ G({"C28"}, e.verdict = "SAT" => ModelFits(p, e.model))
       /\ G({"C28"}, e.verdict = "UNSAT" /\ e.decide => ~Satisfiable(p.dom, p.cls))
  \* encoded and converted back
  /\ o.kind = "back" =>
       LET src == store[o.from]
           p == TLCEval(FRead(src))
       IN /\ G({"C19"}, e.rc = 0)
          /\ G({"C19", "C28"}, e.verdict = origin[o.from].verdict)
          /\ G({"C19", "C28"}, e.verdict = "SAT" => ModelThrough(p, e.model))
          /\ G({"C19"}, e.verdict = "UNSAT" /\ e.decide => ~Satisfiable(p.dom, p.cls))
  /\ store' = store
  /\ origin' = Put(origin, e.in, [k \in DOMAIN o \union {"verdict"} |-> IF k = "verdict" THEN e.verdict ELSE o[k]])

Ev(e) == CASE e.e = "new"   -> store' = <<>> /\ origin' = <<>>
           [] e.e = "write" -> Write(e)
           [] e.e = "gen"   -> Generate(e)
           [] e.e = "b2f"   -> B2F(e)
           [] e.e = "lin"   -> Linenc(e)
           [] e.e = "quad"  -> Quadenc(e)
           [] e.e = "solve" -> Solve(e)

Init == store = <<>> /\ origin = <<>> /\ i = 1
Next == i <= Len(Trace) /\ Ev(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<vars, i>>
View == i
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
