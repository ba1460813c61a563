-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* All lives of a user object, as Account has it, up to some length, and   *)
(* what always holds of them.  In each variant something is left out of    *)
(* Account, and something no longer holds.                                 *)
(***************************************************************************)
EXTENDS Account, IOUtils

Variant == IOEnv.VARIANT
Depth   == IF IOEnv.DEPTH = "deep" THEN 4 ELSE 3

O(op, a, b, c, i, n) == [op |-> op, a |-> a, b |-> b, c |-> c, i |-> i, n |-> n]
Ops ==
  {O("AddPassword", a, "", "", 0, n) : a \in {"p1", "p2", " "}, n \in {1, 2}}
  \cup {O("ChangePassword", a, b, "", 0, n) : a \in {"p1", "p2"}, b \in {"p1", "p2", "p3"}, n \in {1, 2}}
  \cup {O("AddEmailAddress", a, "", "", 0, 0) : a \in {"ann@example.com", "ann@example.org", "junk"}}
  \cup {O("AddName", "Lee", b, "", 0, 0) : b \in {"Ann", "Bo"}}
  \cup {O("AddRole", a, "", "", 0, 0) : a \in {"admin", " admin ", "acme/admin", " "}}
  \cup {O("AddPublicKey", a, "ssh", c, 0, 0) : a \in {"rsa1", "rsa2"}, c \in {"", "off"}}
  \cup {O("AddAPIKey", "api", "c", c, 0, n) : n \in {1, 2}, c \in {"", "off"}}
  \cup {O("AddMfaToken", a, b, c, 0, 0) : a \in {"s1", "s2"}, b \in {"c1", "c2"}, c \in {"totp", "off"}}
  \cup {O(op, "", "", "", i, 0) : op \in {"DeletePublicKey", "DeleteAPIKey", "DeleteMfaToken"}, i \in {1, 2}}
  \cup {O("Disable", f, "", "", 1, 0) : f \in {"pws", "apis", "toks"}}

\* The list an operation is about.
About(o) ==
  CASE o.op \in {"AddPassword", "ChangePassword", "VerifyPassword"} -> "pws"
    [] o.op = "AddEmailAddress" -> "mails"
    [] o.op = "AddName" -> "names"
    [] o.op \in {"AddRole", "AddRoles"} -> "roles"
    [] o.op \in {"AddPublicKey", "DeletePublicKey"} -> "keys"
    [] o.op \in {"AddAPIKey", "DeleteAPIKey", "LookupAPIKey"} -> "apis"
    [] o.op \in {"AddMfaToken", "DeleteMfaToken"} -> "toks"
    [] OTHER -> o.a

\* What the variants do.
Done(u, o) ==
  LET x == Apply(u, o) IN
  CASE Variant = "former ones stay" /\ o.op \in {"AddPassword", "ChangePassword"} /\ x.ok
         -> [x EXCEPT !.u.pws = <<Head(@)>> \o Upto(u.pws, Kept(o.n))]
    [] Variant = "all kept" /\ o.op \in {"AddPassword", "ChangePassword"} /\ x.ok
         -> [x EXCEPT !.u.pws = <<Head(@)>> \o Off(u.pws)]
    [] Variant = "oldest kept" /\ o.op \in {"AddPassword", "ChangePassword"} /\ x.ok /\ Len(u.pws) > Kept(o.n)
         -> [x EXCEPT !.u.pws = <<Head(@)>> \o Off(SubSeq(u.pws, Len(u.pws) - Kept(o.n) + 1, Len(u.pws)))]
    [] Variant = "any old password" /\ o.op = "ChangePassword" -> SetPassword(u, o.a, o.n)
    [] Variant = "added twice" /\ o.op \in {"AddEmailAddress", "AddName", "AddRole"} /\ x.ok /\ x.u = u
         -> [x EXCEPT !.u[About(o)] = Append(@, @[1])]
    [] Variant = "added in front" /\ o.op \in {"AddEmailAddress", "AddName"} /\ x.ok /\ x.u # u
         -> [x EXCEPT !.u[About(o)] = <<Last(@)>> \o Front(@)]
    [] Variant = "same key twice" /\ o.op = "AddPublicKey" /\ o.b = "ssh" -> Yes([u EXCEPT !.keys = Append(@, [k |-> o.a, on |-> TRUE])])
    [] Variant = "same secret twice" /\ o.op = "AddMfaToken" /\ ~\E i \in DOMAIN u.toks : u.toks[i].c = o.b
         -> Yes([u EXCEPT !.toks = Append(@, [ty |-> "totp", s |-> o.a, c |-> o.b, on |-> TRUE])])
    [] Variant = "first deleted" /\ o.op = "DeleteAPIKey" /\ x.ok -> [x EXCEPT !.u.apis = Tail(u.apis)]
    [] Variant = "enabled again" /\ o.op = "AddMfaToken" /\ x.ok -> [x EXCEPT !.u.toks = [i \in DOMAIN @ |-> [@[i] EXCEPT !.on = TRUE]]]
    [] OTHER -> x

VARIABLES u, cur, gone, n, last
vars == <<u, cur, gone, n, last>>
\* cur: the password in force (or << >>); gone: the secrets whose key was deleted or disabled, and the tokens disabled;
\* last: the latest operation, with its outcome and the user before.
Init == u = NoUser /\ cur = << >> /\ gone = {} /\ n = 0 /\ last = [o |-> O("Revise", "", "", "", 0, 0), ok |-> TRUE, u |-> NoUser]

Step(o) ==
  LET x == Done(u, o) IN
  \* a secret is given to one key only
  /\ o.op = "AddAPIKey" => o.n \notin {u.apis[i].n : i \in DOMAIN u.apis} /\ <<"api", o.n>> \notin gone
  /\ u' = x.u /\ n' = n + 1
  /\ last' = [o |-> o, ok |-> x.ok, u |-> u]
  /\ cur' = CASE o.op \in {"AddPassword", "ChangePassword"} /\ x.ok -> <<o.a>>
              [] o.op = "Disable" /\ o.a = "pws" /\ o.i \in DOMAIN u.pws -> IF o.i = 1 THEN << >> ELSE cur
              [] OTHER -> cur
  /\ gone' = gone \cup (CASE o.op = "DeleteAPIKey" /\ o.i \in DOMAIN u.apis -> {<<"api", u.apis[o.i].n>>}
                          [] o.op = "Disable" /\ o.a = "apis" /\ o.i \in DOMAIN u.apis -> {<<"api", u.apis[o.i].n>>}
                          [] o.op = "AddAPIKey" /\ o.c = "off" -> {<<"api", o.n>>}
                          [] OTHER -> {})
Next == n < Depth /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What always holds.                                                      *)
(***************************************************************************)
Distinct(seq) == Cardinality(ToSet(seq)) = Len(seq)
OneSet(f(_), seq) == Distinct([i \in DOMAIN seq |-> f(seq[i])])
Unique == /\ Distinct(u.mails) /\ Distinct(u.names) /\ Distinct(u.roles)
          /\ Distinct([i \in DOMAIN u.keys |-> u.keys[i].k]) /\ Distinct([i \in DOMAIN u.apis |-> u.apis[i].n])
          /\ Distinct([i \in DOMAIN u.toks |-> u.toks[i].s]) /\ Distinct([i \in DOMAIN u.toks |-> u.toks[i].c])
\* The password in force, and no other, is accepted.
Current == Texts(u) = ToSet(cur)
\* A secret whose key was deleted or disabled is not accepted any more, and all others are.
Lookups == \A i \in 1..2 : <<"api", i>> \in gone => i \notin Live(u)
NoLoss  == \A f \in {"keys", "apis", "toks", "pws", "mails", "names", "roles"} :
             f # About(last.o) => u[f] = last.u[f]
\* The first address and the first name stay the first.
First  == /\ last.u.mails # << >> => u.mails # << >> /\ Head(u.mails) = Head(last.u.mails)
          /\ last.u.names # << >> => u.names # << >> /\ Head(u.names) = Head(last.u.names)
Refused == ~last.ok => u = last.u
\* A password is changed by who knows the one in force.
Authorised == (last.o.op = "ChangePassword" /\ last.ok) => last.o.b \in Texts(last.u)
\* The former passwords are the latest ones, and as many as asked for.
History == (last.o.op \in {"AddPassword", "ChangePassword"} /\ last.ok) =>
             /\ Len(u.pws) = 1 + (IF Len(last.u.pws) < Kept(last.o.n) THEN Len(last.u.pws) ELSE Kept(last.o.n))
             /\ \A i \in 2..Len(u.pws) : u.pws[i].t = last.u.pws[i - 1].t /\ ~u.pws[i].on
Deleted == (last.o.op \in {"DeletePublicKey", "DeleteAPIKey", "DeleteMfaToken"} /\ last.ok) =>
             LET f == About(last.o) IN u[f] = Without(last.u[f], last.o.i)
\* What is off stays off.
StaysOff == \A f \in {"keys", "apis", "toks"} : \A i \in DOMAIN last.u[f] : ~last.u[f][i].on =>
              \A j \in DOMAIN u[f] : (IF f = "keys" THEN u[f][j].k = last.u[f][i].k ELSE IF f = "apis" THEN u[f][j].n = last.u[f][i].n ELSE u[f][j].s = last.u[f][i].s)
                                     => ~u[f][j].on
=============================================================================
