------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* Documents with deviations: a variant is [p, v, c], the part it is of,   *)
(* the value it gives to this part, and its class: with a "bad" one the    *)
(* document is to be refused, a "good" one does not matter, and of an      *)
(* "any" one nothing is said.                                              *)
(***************************************************************************)
EXTENDS Table

V(p, c, vs) == {[p |-> p, v |-> v, c |-> c] : v \in vs}

\* The document without deviations, with each one, and with each two in
\* different parts.
Singles(vs) == {<<x>> : x \in vs}
Pairs(vs)   == LET q == SetToSeq(vs)
               IN  {<<q[p[1]], q[p[2]]>> : p \in {x \in (1..Len(q)) \X (1..Len(q)) : x[1] < x[2] /\ q[x[1]].p # q[x[2]].p}}
Docs(vs, two) == << << >> >> \o SetToSeq(Singles(vs)) \o (IF two THEN SetToSeq(Pairs(vs)) ELSE << >>)
Cases(ds)     == [i \in DOMAIN ds |-> [d |-> ds[i]]]

Class(d) == IF \E i \in DOMAIN d : d[i].c = "bad" THEN "bad"
            ELSE IF \E i \in DOMAIN d : d[i].c = "any" THEN "any" ELSE "good"
Show(d)  == FoldLeft(LAMBDA a, x : a \o x.p \o "=" \o x.v \o " ", "", d)
=============================================================================
