------------------------------- MODULE Objects ------------------------------
(***************************************************************************)
(* Objects made and used on their own: passwords with options, the         *)
(* catalogues of credit cards, bundles, and new objects.                   *)
(***************************************************************************)
EXTENDS Table

(***************************************************************************)
(* Cases.                                                                  *)
(***************************************************************************)
Blanks == {"none", "blank", "tabs", "newline", "nbsp", "wide blank"}
Good  == {"plain", "padded", "72", "bytes", "wide", "one", "hash", "zero"}
Algos == {"bcrypt", "", "BCRYPT", "bcrypt ", "argon2", "sha512", "none"}
Costs == {-99, -1, 0, 4, 7, 8, 9, 10, 11, 12, 32, 33, 100}  \* -99: not given
Pw(t, p, a, c) == [k |-> "password", text |-> t, purpose |-> p, algo |-> a, cost |-> c]
Passwords == {Pw(t, "generic", "bcrypt", -99) : t \in Blanks \cup Good}
             \cup {Pw("plain", p, "bcrypt", c) : p \in {"generic", "", "totp"}, c \in Costs}
             \cup {Pw("plain", "generic", a, c) : a \in Algos, c \in {-99, 8, 32}}
             \cup {Pw(t, "x", a, 9) : t \in {"blank", "padded"}, a \in {"bcrypt", ""}}

\* Catalogues: of each entry its name and its aliases.
E(n, a) == [name |-> n, aliases |-> a]
Catalogues == <<
  << >>, <<E("Citigroup", <<"citi", "CitiBank">>)>>, <<E("Chase", << >>), E("Citigroup", <<"citi", "CitiBank">>), E("CITIGROUP", <<"Chase">>)>>,
  <<E("a", <<"b">>), E("b", <<"c">>), E("c", <<"a">>)>>, <<E("", <<"x">>), E("x", <<"">>)>>, <<E("citi", <<"CITI">>), E("Citi", << >>)>> >>
Queries == {"Citigroup", "citigroup", "CITIGROUP", "citi", "CITI", "Citi", "CitiBank", "citibank", "CITIBANK", "Chase", "chase", "a", "b", "c", "A", "x", "X", "", " citi", "citi ", "cit"}
Card(c, of, q) == [k |-> "card", cat |-> Catalogues[c], n |-> c, of |-> of, q |-> q]
Cards == {Card(c, of, q) : c \in DOMAIN Catalogues, of \in {"issuer", "association"}, q \in Queries}
Names == {"American Express", "Diners Club", "Discover", "Mastercard", "Visa", "visa", "VISA", "amex", "Maestro", ""}
Default == {[k |-> "default", q |-> q] : q \in Names}

Bundles == {[k |-> "bundle", of |-> of, size |-> n] : of \in {"api", "public", "mfa", "users"}, n \in {0, 1, 2, 3, 10, 100}}
New == {[k |-> "new", of |-> of] : of \in {"request", "name", "handle", "image", "location", "lockout", "organization", "card", "issuer", "association", "code"}}
Made == {[k |-> "made", of |-> of, name |-> n] : of \in {"user", "registration"}, n \in {"jsmith", "", "JSmith", " x "}}
ASSUME CasesOut(SetToSeq(Passwords) \o SetToSeq(Cards) \o SetToSeq(Default) \o SetToSeq(Bundles) \o SetToSeq(New) \o SetToSeq(Made))

(***************************************************************************)
(* The table.                                                              *)
(***************************************************************************)
Own == {"C27"}
PwOK(r) == r.text \notin Blanks /\ r.algo = "bcrypt" /\ (r.cost = -99 \/ r.cost <= 31)
CostOf(r) == IF r.cost < 8 THEN 10 ELSE r.cost
Password(r) ==
  LET s == "password " \o r.text \o ", algorithm " \o ToString(r.algo) \o ", cost " \o ToString(r.cost) \o ": "
  IN  If(r.ok # PwOK(r), D("password", s \o (IF r.ok THEN "accepted" ELSE "refused: " \o r.err), Own))
      \cup (IF ~r.ok THEN If(~r.nothing, D("password", s \o "refused, and returned", Own))
            ELSE If(r.hashcost # CostOf(r), D("password", s \o "hash of cost " \o ToString(r.hashcost), Own \cup {"C16"}))
                 \cup If(r.saidcost # CostOf(r), D("password", s \o "cost reported as " \o ToString(r.saidcost), Own))
                 \cup If(r.purpose # r.saidpurpose \/ r.algo # r.saidalgo, D("password", s \o "purpose or algorithm not as asked", Own))
                 \cup If(~r.match, D("password", s \o "does not match itself", Own \cup {"C02"}))
                 \cup If(r.others # << >>, D("password", s \o "matches " \o ToString(r.others), Own \cup {"C02"}))
                 \cup If(r.off \/ ~r.now, D("password", s \o "new, with wrong marks or time", Own))
                 \cup If(~r.disabled, D("password", s \o "not marked as disabled and expired, now, with all else as before", Own)))

\* Which entry a text designates: the first of that name, or the first having it as an alias (issuers only), both also in lower case.
LowerOf(r, s) == r.lower[CHOOSE i \in DOMAIN r.texts : r.texts[i] = s]
Is(r, s) == \/ r.q = s \/ (r.of = "issuer" /\ r.q = LowerOf(r, s))
Hits(r) == {i \in DOMAIN r.cat : Is(r, r.cat[i].name) \/ (r.of = "issuer" /\ \E j \in DOMAIN r.cat[i].aliases : Is(r, r.cat[i].aliases[j]))}
First(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
CardDiffs(r) ==
  LET s == r.of \o " " \o ToString(r.q) \o " in catalogue " \o ToString(r.n) \o ": "
      i == First(Hits(r))
  IN  If(r.ok # (i # 0), D("card", s \o (IF r.ok THEN "accepted" ELSE "refused"), Own))
      \cup If(r.ok /\ r.got # i, D("card", s \o "entry " \o ToString(r.got), Own))
      \cup If(~r.ok /\ r.got # r.before, D("card", s \o "refused, but changed", Own))
      \cup If(~r.rest, D("card", s \o "changed something else", Own))

CodeLength(q) == IF q = "American Express" THEN 4 ELSE 3
DefaultDiffs(r) ==
  LET good == r.q \in {"American Express", "Diners Club", "Discover", "Mastercard", "Visa"}
  IN  If(r.ok # good, D("card", "default catalogue, " \o r.q, Own))
      \cup If(good /\ r.ok /\ (r.name # r.q \/ r.digits # CodeLength(r.q)), D("card", "default catalogue, " \o r.q \o ": " \o r.name \o " with codes of " \o ToString(r.digits), Own))

BundleDiffs(r) == If(r.sizes # [i \in 1..(r.size + 1) |-> i - 1] \/ r.got # [i \in 1..r.size |-> i],
                     D("bundle", r.of \o " of " \o ToString(r.size) \o ": " \o ToString(r.got) \o " of size " \o ToString(r.sizes[Len(r.sizes)]), Own))
NewDiffs(r) == If(~r.zero, D("new", r.of \o " not empty", Own)) \cup If(~r.apart, D("new", r.of \o " shared", Own))
MadeDiffs(r) == If(~r.right, D("new", r.of \o ": not as given, or not empty otherwise", Own)) \cup If(~r.now, D("new", r.of \o ": wrong time", Own))

Judge(r) ==
  IF r.panic THEN {D("panic", r.k \o ": " \o r.err, Own \cup {"C20"})}
  ELSE CASE r.k = "password" -> Password(r) [] r.k = "card" -> CardDiffs(r) [] r.k = "default" -> DefaultDiffs(r)
         [] r.k = "bundle" -> BundleDiffs(r) [] r.k = "new" -> NewDiffs(r) [] r.k = "made" -> MadeDiffs(r)

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
