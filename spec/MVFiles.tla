------------------------------ MODULE MVFiles ------------------------------
(***************************************************************************)
(* What the tools do to the file system.                                     *)
(*                                                                          *)
(* fs maps names to contents (digests).  conv remembers what a converter     *)
(* made of which input when the output name was fresh; a conversion over an  *)
(* existing file must give the same content, whatever stood there before.    *)
(* ops is what the run did to files by name: [op, name], op "w" for opening  *)
(* for writing, "x" for removing or renaming.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES fs, conv, i
Enforced == { IOEnv.PROPERTY }
Trace == ndJsonDeserialize(IOEnv.TRACE)
G(labels, cond) == ((labels \intersect Enforced # {}) => cond) = TRUE

FsOf(pairs) == [n \in { pairs[k][1] : k \in DOMAIN pairs } |->
                  pairs[CHOOSE k \in DOMAIN pairs : pairs[k][1] = n][2]]
Put(f, k, x) == [n \in DOMAIN f \union {k} |-> IF n = k THEN x ELSE f[n]]

Arrange(e) == fs' = TLCEval(FsOf(e.fs)) /\ conv' = conv

Wrote(e) == { e.ops[k][2] : k \in { j \in DOMAIN e.ops : e.ops[j][1] = "w" } }
Removed(e) == { e.ops[k][2] : k \in { j \in DOMAIN e.ops : e.ops[j][1] = "x" } }
Reports(e) == e.rc > 0 /\ e.rc < 126 /\ e.said
Same(after) == after = fs

(* Solving changes nothing. *)
Solve(e) ==
  LET after == TLCEval(FsOf(e.after)) IN
  /\ G({"C26"}, Same(after) /\ Wrote(e) = {} /\ Removed(e) = {})
  /\ G({"C26"}, IF e.in \in DOMAIN fs THEN e.rc = 0 ELSE Reports(e) /\ e.verdicts = <<>>)
  /\ fs' = after /\ conv' = conv

(* Converters change the named output only; generators have no input and a    *)
(* key of their own (arguments and time) instead of the input's content.      *)
Produce(e) ==
  LET after == TLCEval(FsOf(e.after))
      hasInput == e.tool # "genben"
      readable == hasInput => e.in \in DOMAIN fs
      key == <<e.tool, IF hasInput THEN IF readable THEN fs[e.in] ELSE "" ELSE e.args>>
      writable == e.writable
  IN
  /\ G({"C26"}, Removed(e) = {})
  /\ IF readable /\ writable
     THEN /\ G({"C26"}, e.rc = 0)
          /\ G({"C26"}, DOMAIN after = DOMAIN fs \union {e.out})
          /\ G({"C26"}, \A n \in DOMAIN fs \ {e.out} : after[n] = fs[n])
          /\ G({"C26"}, Wrote(e) \subseteq {e.out})
          /\ G({"C26"}, key \in DOMAIN conv => after[e.out] = conv[key])
          /\ conv' = TLCEval(IF key \in DOMAIN conv \/ e.out \notin DOMAIN after THEN conv ELSE Put(conv, key, after[e.out]))
     ELSE /\ G({"C26"}, Same(after))
          /\ G({"C26"}, e.said /\ (readable \/ Reports(e)))
          /\ G({"C26"}, ~readable => Wrote(e) = {})
          /\ conv' = conv
  /\ fs' = after

Ev(e) == CASE e.e = "new"     -> fs' = <<>> /\ conv' = <<>>
           [] e.e = "arrange" -> Arrange(e)
           [] e.e = "solve"   -> Solve(e)
           [] e.e = "produce" -> Produce(e)

Init == fs = <<>> /\ conv = <<>> /\ i = 1
Next == i <= Len(Trace) /\ Ev(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<fs, conv, i>>
View == i
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
