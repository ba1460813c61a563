------------------------------- MODULE Person -------------------------------
(***************************************************************************)
(* User objects of the real code, used without a database.  Each record is *)
(* a life: r.h the operations, r.s what came of each, r.v the user before  *)
(* the first of them and after each.  A user is seen as the lists of       *)
(* Account, and as what the methods that only read say of it.              *)
(***************************************************************************)
EXTENDS Table, Account

O(op, a, b, c, i, n) == [op |-> op, a |-> a, b |-> b, c |-> c, i |-> i, n |-> n]
\* Operations by what they are about.
PwOps   == {O("AddPassword", a, "", "", 0, n) : a \in {"p1", "p2"}, n \in {0, 1, 2}}
           \cup {O("AddPassword", a, "", "", 0, 2) : a \in {" ", "p1 "}}
           \cup {O("ChangePassword", "p2", b, "", 0, 3) : b \in {"p1", "p2", "p1 ", "P1", ""}}
           \cup {O("ChangePassword", " ", "p1", "", 0, 3), O("ChangePassword", "p1", "p1", "", 0, -1), O("VerifyPassword", "p1", "", "", 0, 0)}
           \cup {O(op, "pws", "", "", i, 0) : op \in {"Disable", "Expire"}, i \in {1, 2}}
MailOps == {O("AddEmailAddress", a, "", "", 0, 0) : a \in {"ann@example.com", "Ann@example.com", "ann@example.org", "junk", " ann@example.com"}}
NameOps == {O("AddName", a, b, "", 0, 0) : a \in {"Lee", ""}, b \in {"Ann", "Bo", ""}} \cup {O("AddName", "Lee, Ann", "", "", 0, 0)}
RoleOps == {O("AddRole", a, "", "", 0, 0) : a \in {"admin", " admin ", "acme/admin", "acme/admin  ", "Admin", "acme/team/lead", "/admin", " ", ""}}
           \cup {O("AddRoles", a, b, "", 0, 0) : a \in {"admin", "acme/admin"}, b \in {"admin", "Admin", " "}}
KeyOps  == {O("AddPublicKey", a, b, c, 0, 0) : a \in {"rsa1", "rsa2"}, b \in {"ssh"}, c \in {"", "off"}}
           \cup {O("AddPublicKey", "pgp1", "gpg", "", 0, 0), O("AddPublicKey", "rsa1", "gpg", "", 0, 0), O("AddPublicKey", "pgp1", "ssh", "", 0, 0),
                 O("AddPublicKey", "rsa1", "api", "", 0, 0), O("AddPublicKey", "none", "ssh", "", 0, 0)}
           \cup {O("DeletePublicKey", "", "", "", i, 0) : i \in 0..2} \cup {O("Disable", "keys", "", "", 1, 0)}
ApiOps  == {O("AddAPIKey", "api", "c", c, 0, n) : n \in {1, 2}, c \in {"", "off"}}
           \cup {O("AddAPIKey", "api", "", "", 0, 3), O("AddAPIKey", "ssh", "c", "", 0, 3), O("AddAPIKey", "", "c", "", 0, 3)}
           \cup {O("DeleteAPIKey", "", "", "", i, 0) : i \in 0..2} \cup {O("LookupAPIKey", "", "", "", 0, 1)}
           \cup {O(op, "apis", "", "", 1, 0) : op \in {"Disable", "Expire"}}
TokOps  == {O("AddMfaToken", a, b, "totp", 0, 0) : a \in {"s1", "s2"}, b \in {"c1", "c2", ""}}
           \cup {O("AddMfaToken", "s1", "c2", "off", 0, 0), O("AddMfaToken", "s1", "c1", "wrong code", 0, 0), O("AddMfaToken", "s2", "c1", "u2f", 0, 0), O("AddMfaToken", "s3", "c3", "u2f", 0, 0)}
           \cup {O("DeleteMfaToken", "", "", "", i, 0) : i \in 0..2} \cup {O("Disable", "toks", "", "", 1, 0)}
Deep == IOEnv.DEPTH = "deep"
Threes(S) == {<<a, b, c>> : a \in S, b \in S, c \in S}
\* The operations tried in every order; less of them in quick checks.
Core == IF Deep THEN PwOps \cup MailOps \cup NameOps \cup KeyOps \cup ApiOps \cup TokOps
        ELSE {O("AddPassword", "p1", "", "", 0, 1), O("AddPassword", "p2", "", "", 0, 2), O("AddPassword", "p1 ", "", "", 0, 2), O("ChangePassword", "p2", "p1", "", 0, 3),
              O("ChangePassword", "p1", "p1", "", 0, -1), O("ChangePassword", "p2", "P1", "", 0, 3), O("Expire", "pws", "", "", 1, 0), O("Disable", "pws", "", "", 2, 0)}
             \cup MailOps \cup NameOps
             \cup {O("AddPublicKey", "rsa1", "ssh", "off", 0, 0), O("AddPublicKey", "rsa1", "ssh", "", 0, 0), O("AddPublicKey", "rsa2", "ssh", "", 0, 0), O("AddPublicKey", "pgp1", "gpg", "", 0, 0),
                   O("DeletePublicKey", "", "", "", 1, 0), O("DeletePublicKey", "", "", "", 2, 0), O("Disable", "keys", "", "", 1, 0)}
             \cup {O("AddAPIKey", "api", "c", "", 0, 1), O("AddAPIKey", "api", "c", "", 0, 2), O("AddAPIKey", "api", "c", "off", 0, 2),
                   O("DeleteAPIKey", "", "", "", 1, 0), O("DeleteAPIKey", "", "", "", 2, 0), O("Expire", "apis", "", "", 1, 0), O("Disable", "apis", "", "", 1, 0)}
             \cup {O("AddMfaToken", "s1", "c1", "totp", 0, 0), O("AddMfaToken", "s2", "c2", "totp", 0, 0), O("AddMfaToken", "s1", "c2", "off", 0, 0), O("AddMfaToken", "s2", "c1", "u2f", 0, 0),
                   O("AddMfaToken", "s3", "c3", "u2f", 0, 0), O("DeleteMfaToken", "", "", "", 1, 0), O("DeleteMfaToken", "", "", "", 2, 0), O("Disable", "toks", "", "", 1, 0)}
All  == PwOps \cup MailOps \cup NameOps \cup RoleOps \cup KeyOps \cup ApiOps \cup TokOps \cup {O("Revise", "", "", "", 0, 0)}
\* Histories of passwords longer than what is kept.
Long == {[i \in 1..13 |-> O("AddPassword", IF i % 3 = 0 THEN "p1" ELSE "p2", "", "", 0, n)] : n \in {-1, 0, 1, 5, 9, 10, 11}}
Hists == UNION {Threes(S \cap Core) : S \in {PwOps, MailOps, NameOps, KeyOps, ApiOps, TokOps}}
         \cup (IF Deep THEN {<<a, b>> : a, b \in All} ELSE UNION {{<<a, b>> : a, b \in S} : S \in {RoleOps, KeyOps, ApiOps, TokOps}})
         \cup Long
Case(start, h) == [k |-> "life", start |-> start, h |-> h, un |-> "", pw |-> "", mail |-> "", name |-> "", roles |-> << >>]

\* Users made in one go.
News == {[k |-> "new", start |-> "", h |-> << >>, un |-> un, pw |-> pw, mail |-> m, name |-> n, roles |-> rs] :
           un \in {"ann", ""}, pw \in {"p1", " "}, m \in {"ann@example.com", "junk"},
           n \in {"", "  ", "Ann Lee", " Lee, Ann ", "Ann", "Ann B Lee"}, rs \in {<< >>, <<"admin">>, <<"admin", "acme/admin", " admin ">>, <<"admin", " ">>}}
NewName(s) == CASE s \in {"", "  "} -> << >> [] s \in {"Ann Lee", " Lee, Ann "} -> <<"Lee, Ann">> [] OTHER -> <<"?">>

ASSUME CasesOut(SetToSeq({Case("bare", h) : h \in Hists}) \o SetToSeq({Case("made", <<a>>) : a \in All}) \o SetToSeq(News))

(***************************************************************************)
(* What is seen of a user.                                                 *)
(***************************************************************************)
OnP(x) == ~x.dis /\ ~x.exp
Abs(v) ==
  [pws   |-> [i \in DOMAIN v.pws  |-> [t |-> v.pws[i].t, on |-> OnP(v.pws[i])]],
   mails |-> v.mails,
   names |-> [i \in DOMAIN v.names |-> NameOf(v.names[i][1], v.names[i][2])],
   roles |-> v.roles,
   keys  |-> [i \in DOMAIN v.keys |-> [k |-> v.keys[i].k, on |-> OnP(v.keys[i])]],
   apis  |-> [i \in DOMAIN v.apis |-> [n |-> v.apis[i].n, on |-> OnP(v.apis[i])]],
   toks  |-> [i \in DOMAIN v.toks |-> [ty |-> v.toks[i].ty, s |-> v.toks[i].s, c |-> v.toks[i].c, on |-> ~v.toks[i].dis]]]

ClaimOf(x) == IF x[1] = "" THEN x[2] ELSE x[1] \o "/" \o x[2]
RoleTexts == {"admin", " admin ", "acme/admin", "acme/admin  ", "Admin", "acme/team/lead", "/admin", " ", "", "acme", "lead", "team/lead"}
RolesOf(s) == IF Role(s) # << >> THEN Role(s) ELSE IF s \in {"acme", "lead"} THEN <<"", s>> ELSE IF s = "team/lead" THEN <<"team", "lead">> ELSE << >>
\* What the methods that read say agrees with the lists.
Told(v) ==
  LET u == Abs(v)
      firstMail == IF u.mails = << >> THEN "" ELSE u.mails[1]
      firstName == IF u.names = << >> THEN "" ELSE u.names[1]
      on == {u.toks[i].ty : i \in {j \in DOMAIN u.toks : u.toks[j].on}}
  IN  If(ToSet(v.acc) # Texts(u), "the passwords accepted are not those in force")
      \cup If(~(ToSet(v.live) \subseteq Live(u) /\ Sure(u) \subseteq ToSet(v.live)), "the API keys found are not those in force")
      \cup If(v.mail # firstMail \/ v.memail # firstMail, "the address is not the first one")
      \cup If(v.name # firstName \/ v.full # firstName \/ v.mname # firstName, "the name is not the first one")
      \cup If(v.rolec # [i \in DOMAIN u.roles |-> ClaimOf(u.roles[i])], "the roles claimed are not those of the user")
      \cup If(ToSet(v.has) # {s \in RoleTexts : RolesOf(s) # << >> /\ In(RolesOf(s), u.roles)}, "the roles the user has are others")
      \cup If(v.hasroles # (u.roles # << >>) \/ v.hasmail # (u.mails # << >>), "whether there are roles, or addresses")
      \cup If(v.flags # <<on # {}, "totp" \in on, "u2f" \in on>>, "the flags are not those of the tokens enabled")
      \cup If(v.chal # (IF on = {} THEN <<"password">> ELSE <<"password", "mfa">>), "the challenges are not those of the tokens enabled")
      \cup If(v.valid # (u.pws # << >> /\ v.un # ""), "whether the user is valid")
      \cup If(~v.meta, "the metadata are not those of the user")

\* The entry of the list f before the operation, from which the i-th after it comes: its number, or 0.
From(o, f, i, n) ==
  CASE f = "pws" /\ o.op \in {"AddPassword", "ChangePassword"} -> i - 1
    [] <<o.op, f>> \in {<<"DeletePublicKey", "keys">>, <<"DeleteAPIKey", "apis">>, <<"DeleteMfaToken", "toks">>} -> IF i < o.i THEN i ELSE i + 1
    [] OTHER -> IF i <= n THEN i ELSE 0
\* An entry is as it was, but for its marks.
EntryOk(o, f, v, w, ok, i) ==
  LET from == IF ok THEN From(o, f, i, Len(v[f])) ELSE i
      x    == w[f][i]
      y    == v[f][from]
      set  == \/ (f = "pws" /\ o.op \in {"AddPassword", "ChangePassword"} /\ ok /\ ~y.dis)
              \/ (o.op \in Behind /\ o.a = f /\ o.i = from)
  IN  IF from = 0 THEN (IF o.c = "off" THEN x.dis /\ x.now ELSE ~x.dis /\ ~x.exp /\ ~x.dat /\ ~x.eat)
      ELSE IF set THEN (o.op # "Expire" => (x.dis /\ x.exp /\ x.now)) /\ x.m = y.m
      ELSE x.d = y.d

Step(o, s, v, w) ==
  LET before == Abs(v)
      e      == Apply(before, o)
      after  == Abs(w)
      rolesKept == o.op = "AddRoles" /\ ~e.ok /\ after = AddRole(before, o.a).u
      same   == IF rolesKept /\ ~s.ok THEN TRUE ELSE after = e.u
      change == (o.op \in Always /\ s.ok) \/ (o.op \notin Behind /\ after # before)
      either == o.op = "LookupAPIKey" /\ o.n \in Live(before) \ Sure(before)
  IN  IF s.panic THEN {"panic: " \o s.err}
      ELSE If(e.ok /\ ~s.ok /\ ~either, "refused: " \o s.err) \cup If(~e.ok /\ s.ok, "not refused")
           \cup If(~same, "the user afterwards is another than specified")
           \cup (IF same THEN If(\E f \in {"pws", "keys", "apis", "toks"} : \E i \in DOMAIN w[f] : ~EntryOk(o, f, v, w, s.ok, i), "an entry was changed that should not, or is marked wrongly")
                 ELSE {})
           \cup If(w.rest # v.rest, "something else of the user changed")
           \cup If(change /\ ~(w.rev > v.rev /\ w.lmnow), "a change that the revision and its time do not tell")
           \cup If(~change /\ o.op \notin Behind /\ w.all # v.all, "a change without reason")
           \cup If(o.op \in Behind /\ w.rev # v.rev, "the revision changed")

RECURSIVE Life(_, _)
Life(r, i) == IF i > Len(r.h) THEN {} ELSE {ToString(i) \o " " \o r.h[i].op \o ": " \o x : x \in Step(r.h[i], r.s[i], r.v[i], r.v[i + 1]) \cup Told(r.v[i + 1])} \cup Life(r, i + 1)

AllRoles(rs) == Cardinality({i \in DOMAIN rs : Role(rs[i]) = << >>}) = 0
RECURSIVE RolesAdded(_, _)
RolesAdded(u, rs) == IF rs = << >> THEN u ELSE RolesAdded(AddRole(u, Head(rs)).u, Tail(rs))
Made(r) ==
  LET good == r.un # "" /\ r.pw \notin BlankTexts /\ r.mail \in Addresses /\ AllRoles(r.roles) /\ NewName(r.name) # <<"?">>
      u == [RolesAdded(NoUser, r.roles) EXCEPT !.pws = <<[t |-> r.pw, on |-> TRUE]>>, !.mails = <<r.mail>>, !.names = NewName(r.name)]
  IN  IF r.s[1].panic THEN {"panic: " \o r.s[1].err}
      ELSE If(good # r.s[1].ok, IF good THEN "refused: " \o r.s[1].err ELSE "not refused")
           \cup (IF r.s[1].ok THEN If(Abs(r.v[1]) # u, "another user than asked for") \cup If(r.v[1].rev # 0 \/ ~r.v[1].lmnow \/ r.v[1].un # r.un, "another name, revision or time") \cup Told(r.v[1])
                 ELSE {})

Judge(r) == {D(r.k, x, {"C25"}) : x \in IF r.k = "new" THEN Made(r) ELSE Told(r.v[1]) \cup Life(r, 1)}

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
