------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* The length policy: which limits a database has, given those of its      *)
(* file (0 when it has none), which usernames and passwords they allow,    *)
(* and what is published about them.                                       *)
(***************************************************************************)
EXTENDS Table

(***************************************************************************)
(* Cases: the policy of a file, absent members being 0 or FALSE.           *)
(***************************************************************************)
LimitSets == { <<8, 128, 3, 50, 10>>, <<0, 0, 0, 0, 0>>, <<1, 1, 1, 1, 1>>, <<12, 200, 2, 3, 5>>, <<0, 20, 0, 10, 0>>, <<6, 0, 4, 0, 2>>,
               <<72, 73, 5, 64, 3>>, <<10, 10, 7, 7, 12>>, <<9, 40, 0, 100, 1>>, <<3, 9, 6, 8, 0>>, <<10, 9, 5, 4, 4>>, <<16, 4096, 3, 255, 100>> }
Case(s, up, na, q) == [pmin |-> s[1], pmax |-> s[2], umin |-> s[3], umax |-> s[4], kv |-> s[5], upper |-> up, nonan |-> na,
                       rup |-> q[1], rlow |-> q[2], rnum |-> q[3], rna |-> q[4], reuse |-> q[5], block |-> q[6], try |-> FALSE]
TextCases == {Case(s, up, na, q) : s \in LimitSets, up \in BOOLEAN, na \in BOOLEAN, q \in [1..6 -> BOOLEAN]}
None == [i \in 1..6 |-> FALSE]
All  == [i \in 1..6 |-> TRUE]
TryCases  == {[Case(s, x, x, IF x THEN [All EXCEPT ![6] = FALSE] ELSE None) EXCEPT !.try = TRUE] : s \in LimitSets, x \in BOOLEAN}
ASSUME CasesOut(SetToSeq({c \in TextCases : c.reuse = c.block \/ (c.rup /\ c.rlow)}) \o SetToSeq(TryCases))

(***************************************************************************)
(* The table.                                                              *)
(***************************************************************************)
Or(x, d) == IF x = 0 THEN d ELSE x
\* The policy of the database having this file.
Loaded(c) == [c EXCEPT !.pmin = Or(@, 8), !.pmax = Or(@, 128), !.umin = Or(@, 3), !.umax = Or(@, 50), !.kv = Or(@, 10)]

Join(seq) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o seq[i], "", [i \in 1..Len(seq) |-> i])
Opt(c, s) == IF c THEN <<s>> ELSE << >>
With(seq) == IF seq = << >> THEN "" ELSE " with " \o Join(seq) \o " characters"
Span(a, b) == ToString(a) \o "-" \o ToString(b)

UserSummary(p) == "A username should be " \o Span(p.umin, p.umax) \o " character long string"
                  \o With(Opt(~p.upper, "lowercase") \o Opt(~p.nonan, "alpha-numeric"))
UserRegex(p) == LET first == IF p.upper THEN "a-zA-Z" ELSE "a-z"
                IN  "^[" \o first \o "][" \o first \o "0-9" \o (IF p.nonan THEN "-_." ELSE "") \o "]{"
                    \o ToString(p.umin - 1) \o "," \o ToString(p.umax - 1) \o "}$"
PasswordSummary(p) == "A password should be " \o Span(p.pmin, p.pmax) \o " character long string"
                      \o With(Opt(p.rup, "uppercase") \o Opt(p.rlow, "lowercase") \o Opt(p.rnum, "numbers") \o Opt(p.rna, "non alpha-numeric"))
PasswordRegex(p) == "^" \o (IF p.rup THEN "(?=.*[A-Z])" ELSE "") \o (IF p.rlow THEN "(?=.*[a-z].*[a-z])" ELSE "")
                    \o (IF p.rnum THEN "(?=.*[0-9].*[0-9])" ELSE "") \o (IF p.rna THEN "(?=.*[~!@#$&*])" ELSE "")
                    \o ".{" \o ToString(p.pmin) \o "," \o ToString(p.pmax) \o "}$"

Allowed(p, t) ==   \* an attempt: [k, un, pw] lengths in bytes
  /\ t.k = "add" => t.un \in p.umin..p.umax /\ t.un > 0
  /\ t.pw \in p.pmin..p.pmax /\ t.pw > 0

Plain(p) == [k \in DOMAIN p \ {"try"} |-> p[k]]
Judge(r) ==
  LET p == Loaded(r.c)
      texts(x) == If(x.us # UserSummary(p), D("username summary", x.us, {"C14"})) \cup If(x.ur # UserRegex(p), D("username pattern", x.ur, {"C14"}))
                  \cup If(x.ps # PasswordSummary(p), D("password summary", x.ps, {"C14"})) \cup If(x.pr # PasswordRegex(p), D("password pattern", x.pr, {"C14"}))
  IN  IF r.panic \/ ~r.ok THEN {D("open", r.err, {"C14", "C15"})}
      ELSE UNION {If(Plain(r.pol[i]) # Plain(p), D("policy", "not that of the file", {"C14"})) : i \in DOMAIN r.pol}
           \cup UNION {texts(r.txt[i]) : i \in DOMAIN r.txt}
           \cup UNION {LET t == r.tries[i]
                       IN  If(t.panic, D("panic", t.err, {"C14", "C20"}))
                           \cup If(t.ok /\ ~Allowed(p, t), D("accepted", t.k \o " " \o ToString(t.un) \o " " \o ToString(t.pw), {"C14"}))
                           \cup If(~t.ok /\ Allowed(p, t), D("refused", t.k \o " " \o ToString(t.un) \o " " \o ToString(t.pw) \o " " \o t.err, {"C14"}))
                       : i \in DOMAIN r.tries}

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
