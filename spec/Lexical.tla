------------------------------- MODULE Lexical ------------------------------
(***************************************************************************)
(* Roles, names and email addresses: which texts they accept, what they    *)
(* are read as, and what a user having several of them reports.            *)
(***************************************************************************)
EXTENDS Table

Strings(alphabet, n) == UNION {[1..k -> alphabet] : k \in 0..n}

RoleChars  == {97, 66, 47, 32, 9}                 \* a B / space tab
NameChars  == {97, 66, 44, 32, 160}               \* a B , space nbsp
MailChars  == {97, 49, 45, 46, 64, 95, 32}        \* a 1 - . @ _ space
DomChars   == {97, 49, 45, 46, 64}
\* single characters, in the local part and in the domain
Chars == (-255..-128) \cup (0..255) \cup {304, 8217, 8490, 12288, 65281, 65312, 65374, 128512}

OfLen(n, c) == [i \in 1..n |-> c]
At == <<64>>
XY == <<120, 46, 121>>
MailCases ==
  Strings(MailChars, 4)
  \cup {<<97>> \o At \o s : s \in Strings(DomChars, 5)}
  \cup {<<97, c, 98>> \o At \o XY : c \in Chars}
  \cup {<<c>> \o At \o XY : c \in Chars}
  \cup {<<97>> \o At \o <<c>> \o XY : c \in Chars}
  \cup {<<97>> \o At \o <<120, c, 121>> : c \in Chars}
  \cup {<<97>> \o At \o XY \o <<c>> : c \in Chars}
  \cup {<<97>> \o At \o OfLen(n, 98) \o t : n \in {1, 61, 62, 63, 64, 65, 126}, t \in {<< >>, <<46, 99>>, <<46>> \o OfLen(63, 100), <<46>> \o OfLen(64, 100), <<45>>, <<45, 99>>}}
  \cup {OfLen(n, 97) \o At \o XY : n \in {1, 64, 65, 300}}

\* Several of a kind, some of them the same.
FewRoles == {<<97>>, <<97, 32>>, <<97, 47, 98>>, <<98>>, <<97, 47, 98, 47, 99>>, <<47, 97>>, <<97, 47>>, <<65>>, <<32, 97, 47, 98>>}
FewMails == {<<97, 64, 98>>, <<97, 64, 99>>, <<98, 64, 98>>, <<65, 64, 98>>, <<97, 64, 66>>}
FewNames == {<<97, 32, 98>>, <<98, 44, 97>>, <<98, 44, 32, 97>>, <<98, 32, 97>>, <<99, 44, 97>>, <<65, 32, 98>>, <<66, 44, 97>>}
Triples(S) == [1..3 -> S]

ASSUME CasesOut(
  SetToSeq({[k |-> "role", s |-> s] : s \in Strings(RoleChars, 5) \cup {<<97, c>> : c \in Chars} \cup {<<c, 97>> : c \in Chars} \cup {<<c>> : c \in Chars}})
  \o SetToSeq({[k |-> "name", s |-> s] : s \in {x \in Strings(NameChars, 5) : Trim(x) = x} \cup {<<97, 32, 98, c>> : c \in {x \in Chars : ~IsSpace(x)}}})
  \o SetToSeq({[k |-> "mail", s |-> s] : s \in MailCases})
  \o SetToSeq({[k |-> "roles", a |-> t, s |-> q] : t \in Triples(FewRoles), q \in {<<97>>, <<97, 47, 98>>, <<47, 97>>, << >>, <<98, 32>>}})
  \o SetToSeq({[k |-> "mails", a |-> t, s |-> << >>] : t \in Triples(FewMails)})
  \o SetToSeq({[k |-> "names", a |-> t, s |-> << >>] : t \in Triples(FewNames)}))

(***************************************************************************)
(* The table.                                                              *)
(***************************************************************************)
Dedup(q, f(_)) == FoldLeft(LAMBDA acc, x : IF f(x) \in {f(acc[i]) : i \in DOMAIN acc} THEN acc ELSE Append(acc, x), << >>, q)
Same(x) == x
DomainOf(s) == LET at == FirstOf(s, 64) IN SubSeq(s, at + 1, Len(s))
\* Which of the additions change the user: those of what it does not have yet.
NewAt(q, f(_)) == [i \in DOMAIN q |-> \A j \in 1..(i - 1) : f(q[j]) # f(q[i])]
RolesOf(a) == Dedup([i \in DOMAIN a |-> RoleOf(a[i])], Same)
NameText(s) == FullName(NameParts(s)[1], NameParts(s)[2])

O == {"C18"}
Reason == [k \in {"role", "name", "mail"} |-> IF k = "mail" THEN "email" ELSE k]
Judge(r) ==
  IF r.panic THEN {D("panic", r.err, {"C18", "C20"})}
  ELSE If(r.k \in DOMAIN Reason /\ ~r.ok /\ r.says # <<Reason[r.k]>>, D("refusal", r.err, {"C26"})) \cup
       CASE r.k = "role" ->
              If(r.ok # RoleOK(r.s), D("role", "", O))
              \cup (IF r.ok /\ RoleOK(r.s) THEN If(<<r.x, r.y>> # RoleOf(r.s), D("role", "read as another", O)) \cup If(r.t # RoleText(RoleOf(r.s)), D("role", "written as another", O)) ELSE {})
         [] r.k = "name" ->
              If(r.ok # (NameParts(r.s) # << >>), D("name", "", O))
              \cup (IF r.ok /\ NameParts(r.s) # << >>
                    THEN If(<<r.x, r.y>> # NameParts(r.s), D("name", "read as another", O)) \cup If(r.t # NameText(r.s), D("name", "written as another", O)) ELSE {})
         [] r.k = "mail" ->
              If(r.ok # EmailOK(r.s), D("mail", "", O))
              \cup (IF r.ok /\ EmailOK(r.s) THEN If(r.x # r.s \/ r.t # r.s \/ r.y # DomainOf(r.s), D("mail", "read as another", O)) ELSE {})
         [] r.k = "roles" ->
              LET e == RolesOf(r.a)
              IN  If(~r.ok, D("roles", r.err, O))
                  \cup If(r.got # [i \in DOMAIN e |-> RoleText(e[i])], D("roles", "", O))
                  \cup If(r.has # (RoleOK(r.s) /\ RoleOf(r.s) \in ToSet(e)), D("roles", "membership", O))
                  \cup If(r.any # (e # << >>), D("roles", "membership of any", O))
                  \cup If(r.ch # NewAt(r.a, RoleOf), D("roles", "addition of what is there", O))
         [] r.k = "mails" ->
              LET e == Dedup(r.a, Same)
              IN  If(~r.ok \/ r.got # e \/ r.first # e[1], D("mails", r.err, O))
                  \cup If(r.ch # NewAt(r.a, Same), D("mails", "addition of what is there", O))
         [] r.k = "names" ->
              LET e == Dedup(r.a, NameText)
              IN  If(~r.ok \/ r.got # [i \in DOMAIN e |-> NameText(e[i])] \/ r.first # NameText(e[1]), D("names", r.err, O))
                  \cup If(r.ch # NewAt(r.a, NameText), D("names", "addition of what is there", O))
         \* registered and identified
         [] r.k = "whole" ->
              LET good == EmailOK(r.m) /\ (\A i \in DOMAIN r.a : RoleOK(r.a[i])) /\ (Blank(r.n) \/ NameParts(r.n) # << >>)
                          /\ \A t \in {r.n} \cup ToSet(r.a) : ValidUtf8(t)
                  e == RolesOf(r.a)
              IN  If(r.ok # good, D("whole", r.err, O))
                  \cup (IF r.ok /\ good
                        THEN If(r.rl # [i \in DOMAIN e |-> RoleText(e[i])], D("whole", "roles", O))
                             \cup If(r.em # r.m, D("whole", "email", O))
                             \cup If(r.fn # (IF Blank(r.n) THEN << >> ELSE NameText(r.n)), D("whole", "name", O))
                        ELSE {})

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
