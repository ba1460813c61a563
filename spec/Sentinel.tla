------------------------------ MODULE Sentinel ------------------------------
(***************************************************************************)
(* Errors made of a sentinel and arguments.  A sentinel is a sequence of   *)
(* parts, each a literal and a verb (or none, at the end); the text of the *)
(* error has the arguments in the places of the verbs.  The error is, for  *)
(* errors.Is, its sentinel, and no other.                                  *)
(***************************************************************************)
EXTENDS Table

P(lit, verb) == [lit |-> lit, verb |-> verb]
A(k, v, n)   == [k |-> k, v |-> v, n |-> n]

Args == {A("text", "word", 0), A("text", "", 0), A("text", "two words", 0), A("error", "it broke", 0), A("inner", "", 0), A("nil", "", 0)}
Cases ==
  {[parts |-> <<P("plain", "")>>, args |-> << >>]}
  \cup {[parts |-> <<P("failed: ", v), P("", "")>>, args |-> <<x>>] : v \in {"v", "s"}, x \in Args}
  \cup {[parts |-> <<P("failed ", v), P(" at ", "v"), P(".", "")>>, args |-> <<x, y>>] : v \in {"v", "q", "s"}, x \in {A("text", "word", 0), A("text", "", 0)}, y \in Args}
  \cup {[parts |-> <<P("n ", "d"), P("", "")>>, args |-> <<A("int", "", n)>>] : n \in {-5, 0, 7, 123456}}
  \cup {[parts |-> <<P("a ", "v"), P("b ", "v"), P("", "")>>, args |-> <<x, y>>] : x \in Args, y \in Args}
ASSUME CasesOut(SetToSeq(Cases))

Shown(verb, x) ==
  CASE x.k = "int"   -> ToString(x.n)
    [] x.k = "inner" -> "inner%!(EXTRA string=x)"
    [] verb = "q"    -> "\"" \o x.v \o "\""
    [] OTHER         -> x.v
RECURSIVE Text(_, _, _)
Text(ps, as, i) == IF i > Len(ps) THEN ""
                   ELSE ps[i].lit \o (IF ps[i].verb = "" THEN "" ELSE Shown(ps[i].verb, as[i])) \o Text(ps, as, i + 1)

Nils(r)   == {i \in DOMAIN r.args : r.args[i].k = "nil"}
Errors(r) == {i \in DOMAIN r.args : r.args[i].k \in {"error", "inner"}}

Judge(r) ==
  IF r.panic THEN {D("panic", r.err, {"C26", "C20"})}
  ELSE If(~r.sentinel, D("sentinel", "text", {"C26"}))
       \* a cause that is missing is no error
       \cup If(r.nil # (Nils(r) # {} /\ Errors(r) = {}), D("sentinel", "error or none", {"C26"}))
       \cup (IF r.nil THEN {}
             ELSE If(~r.is \/ ~r.wrapped, D("sentinel", "not itself", {"C26"}))
                  \cup If(r.other, D("sentinel", "another one", {"C26"}))
                  \cup If(Nils(r) = {} /\ r.text # Text(r.parts, r.args, 1), D("sentinel", "text is " \o r.text, {"C26"}))
                  \cup If(r.twice # r.text, D("sentinel", "text changes", {"C26"})))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
