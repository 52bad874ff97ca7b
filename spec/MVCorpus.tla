------------------------------ MODULE MVCorpus ------------------------------
(***************************************************************************)
(* Every problem up to a size, with its answer by definition, for the real   *)
(* programs to be run on.  A problem is a set of clauses, each a set of      *)
(* literals in either written form; order is up to whoever writes the file.  *)
(***************************************************************************)
EXTENDS MVLogic, FiniteSetsExt, Json, IOUtils

Written(d) == UNION { { <<v, f, x>> : f \in {0, 1}, x \in Values(d, v) } : v \in DOMAIN d }
UpTo(S, n) == (* the subsets of S of 0 to n elements, n at most 3 *)
  {{}} \cup (IF n >= 1 THEN {{a} : a \in S} ELSE {})
       \cup (IF n >= 2 THEN {{a, b} : a, b \in S} ELSE {})
       \cup (IF n >= 3 THEN {{a, b, c} : a, b, c \in S} ELSE {})
Clauses(d, len) == UpTo(Written(d), len) \ {{}}
Problems(d, len, most) == UpTo(Clauses(d, len), most)

Says(d, l) == IF l[2] = 1 THEN Eq(l[1], l[3]) ELSE Neq(d, l[1], l[3])
Meaning(d, cs) == [i \in DOMAIN cs |-> [k \in DOMAIN cs[i] |-> Says(d, cs[i][k])]]

Record(d, f) ==
  LET s == SetToSeq(f)
      cs == [i \in DOMAIN s |-> SetToSeq(s[i])]
  IN [dom |-> d, cls |-> cs, sat |-> SatByDef(d, Meaning(d, cs))]

(* Small: for every run of a check.  Large: for the thorough ones.  Deep:     *)
(* few values, so that many clauses (conflicts, learned clauses) fit.         *)
Small == << [d |-> <<3, 2>>, len |-> 2, most |-> 2], [d |-> <<3>>, len |-> 2, most |-> 3],
            [d |-> <<2, 2>>, len |-> 2, most |-> 2], [d |-> <<1, 3>>, len |-> 2, most |-> 2] >>
Large == Small \o
         << [d |-> <<3, 2>>, len |-> 2, most |-> 3], [d |-> <<2, 2>>, len |-> 2, most |-> 3],
            [d |-> <<2, 2, 2>>, len |-> 2, most |-> 2], [d |-> <<4>>, len |-> 2, most |-> 3],
            [d |-> <<3, 3>>, len |-> 2, most |-> 2], [d |-> <<1, 2, 2>>, len |-> 2, most |-> 2] >>
Wanted == IF IOEnv.CORPUS = "small" THEN Small ELSE Large

(* Dense: every set of clauses of two literals, on different variables (all    *)
(* 2-clause problems over three booleans; over two values and three), and       *)
(* every way to exclude combinations of the values of two or three variables.   *)
Between(d, v, w, fs) ==
  { { <<v, f, x>>, <<w, g, y>> } : f \in fs, g \in (IF d[w] = 2 THEN {1} ELSE fs), x \in Values(d, v), y \in Values(d, w) }
Pool(d, fs) == UNION { Between(d, v, w, fs) : v \in DOMAIN d, w \in { u \in DOMAIN d : u > 1 } }
Pairs(d, fs) == { c \in Pool(d, fs) : \A a, b \in c : a # b => a[1] # b[1] }
Excluding(d) == { { <<v, 0, a[v]>> : v \in DOMAIN d } : a \in { z \in [DOMAIN d -> 0 .. 2] : \A v \in DOMAIN d : z[v] < d[v] } }
Dense == << [d |-> <<2, 2, 2>>, pool |-> { c \in Pairs(<<2, 2, 2>>, {1}) : Cardinality(c) = 2 }],
            [d |-> <<3, 2>>, pool |-> { c \in Pairs(<<3, 2>>, {0, 1}) : Cardinality(c) = 2 }],
            [d |-> <<3, 3>>, pool |-> Excluding(<<3, 3>>)],
            [d |-> <<2, 2, 2>>, pool |-> Excluding(<<2, 2, 2>>)] >>

(* Boolean problems, for b2f: clauses of signed variable numbers. *)
Signed(n) == { x : x \in 1 .. n } \cup { -x : x \in 1 .. n }
Booleans == IF IOEnv.CORPUS = "boolean" THEN << [n |-> 1, most |-> 3], [n |-> 2, most |-> 2] >>
            ELSE << [n |-> 1, most |-> 3], [n |-> 2, most |-> 3], [n |-> 3, most |-> 2] >>
BRecord(n, f) == LET s == SetToSeq(f) IN [nv |-> n, cls |-> [i \in DOMAIN s |-> SetToSeq(s[i])]]

Corpus ==
  IF IOEnv.CORPUS \in {"small", "large"}
  THEN FlattenSeq([j \in DOMAIN Wanted |->
         LET w == Wanted[j] IN SetToSeq({ Record(w.d, f) : f \in Problems(w.d, w.len, w.most) })])
       \o (IF IOEnv.CORPUS = "small" THEN <<>>
           ELSE FlattenSeq([j \in DOMAIN Dense |->
                  LET w == Dense[j] IN SetToSeq({ Record(w.d, f) : f \in SUBSET w.pool })]))
  ELSE FlattenSeq([j \in DOMAIN Booleans |->
         LET w == Booleans[j]
         IN SetToSeq({ BRecord(w.n, f) : f \in UpTo(UpTo(Signed(w.n), 3), w.most) })])

VARIABLE x
Init == x = ndJsonSerialize(IOEnv.OUT, Corpus)
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
