------------------------------ MODULE MVTrace ------------------------------
(***************************************************************************)
(* Trace checking: the logs of many runs of the real solvers, one event per *)
(* line, replayed as one behaviour of MVSearch.  The behaviour is linear;   *)
(* it reaches the end of the trace exactly when no guard of the enforced    *)
(* property forbids an event.                                               *)
(***************************************************************************)
EXTENDS MVSearch, Json, IOUtils

VARIABLE i

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* One property, or ALL of them. *)
EnforcedFromEnv == IF IOEnv.PROPERTY = "ALL"
                   THEN {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
                         "C22", "C23", "C24", "C25"}
                   ELSE { IOEnv.PROPERTY }

ToSetOf(s) == { s[k] : k \in DOMAIN s }
(* A literal arrives as [variable, form, value or list of values]. *)
Lit(d, j) == CASE j[2] = 1 -> Eq(j[1], j[3])
               [] j[2] = 0 -> <<j[1], IF j[1] \in DOMAIN d THEN Values(d, j[1]) \ {j[3]} ELSE {}, 0, j[3]>>
               [] OTHER    -> SetLit(j[1], ToSetOf(j[3]))
Cl(d, js) == [k \in DOMAIN js |-> Lit(d, js[k])]

(* Quantifying over a singleton makes TLC compute the value once. *)
Assign(e) ==
  \E l \in { Lit(dom, e.l) } :
  /\ "nd" \in DOMAIN e => G({"C24"}, ToSetOf(e.nd) = live[e.l[1]] \intersect l[2])
  /\ CASE e.r = "chosen" -> AssignChosen(l, e.L, e.l[2] = 1)
       [] e.r = "unit"   -> \E c \in { Cl(dom, e.c) } : AssignUnit(l, e.L, e.l[2] = 1, c, e.rid)
       [] e.r = "only"   -> AssignOnly(l, e.L, e.l[2] = 1)

Ev(e) ==
  CASE e.e = "run"   -> \E f \in { [k \in DOMAIN e.cls |-> Cl(e.dom, e.cls[k])] } : Begin(e.mode, e.dom, f)
    [] e.e = "dec"   -> \E l \in { Lit(dom, e.l) } : Decide(l)
    [] e.e = "red"   -> Assign(e)
    [] e.e = "ent"   -> \E l \in { Lit(dom, e.l) } : Announce(l)
    [] e.e = "conf"  -> \E c \in { Cl(dom, e.c) } : Conflict(c, e.L, e.rid)
    [] e.e = "learn" -> \E c \in { Cl(dom, e.c) } : Learn(c)
    [] e.e = "back"  -> Backjump(e.b, e.n, e.post)
    [] e.e = "flip"  -> \E l \in { Lit(dom, e.l) } : Flip(l)
    [] e.e = "clk"   -> Clock(e.t)
    [] e.e = "bad"   -> G(ToSetOf(e.props), FALSE) /\ UNCHANGED vars
    [] e.e = "end"   -> \E r \in { [e EXCEPT !.model = [k \in DOMAIN e.model |-> <<e.model[k][1], ToSetOf(e.model[k][2])>>]] } :
                          End(r)

Init ==
  /\ i = 1
  /\ mode = [alg |-> "nc", heur |-> "lazy", k |-> 0, limit |-> -1, log |-> FALSE, oracle |-> "none"]
  /\ dom = <<>> /\ cls = <<>> /\ norig = 0 /\ live = <<>> /\ hist = <<>> /\ now = 0 /\ lev = 0
  /\ opens = <<>> /\ expect = [what |-> "any"] /\ cnt = ZeroCounts
  /\ act = [n |-> 0, score |-> <<>>] /\ clk = [start |-> -1, last |-> -1, fresh |-> FALSE, seen |-> FALSE]
  /\ phase = "idle"

Next == i <= Len(Trace) /\ Ev(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<vars, i>>
View == i

(* The line at which the trace stops being a behaviour, 0 if it never does. *)
Accepted ==
  LET reached == TLCGet("stats").diameter
  IN PrintT(<<"REACHED", reached, Len(Trace)>>)
=============================================================================
