------------------------------ MODULE Account ------------------------------
(***************************************************************************)
(* A user object on its own, that is one without a database: what each of  *)
(* its operations does.  Life explores these, and Person checks that those *)
(* of the real code do the same.                                           *)
(*                                                                         *)
(* A user is [pws, mails, names, roles, keys, apis, toks]:                 *)
(*   pws    the passwords, the newest first: [t |-> text, on |-> accepted] *)
(*   mails, names, roles    texts                                          *)
(*   keys   [k |-> which key, on]      apis  [n |-> which secret, on]      *)
(*   toks   [ty, s |-> secret, c |-> comment, on]                          *)
(* An operation is [op, a, b, c, i, n].  Its result [u, ok] is the user    *)
(* afterwards, and whether there was no error.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NoUser == [pws |-> << >>, mails |-> << >>, names |-> << >>, roles |-> << >>, keys |-> << >>, apis |-> << >>, toks |-> << >>]

Texts(u)    == {u.pws[i].t : i \in {j \in DOMAIN u.pws : u.pws[j].on}}      \* those a password check accepts
Live(u)     == {u.apis[i].n : i \in {j \in DOMAIN u.apis : u.apis[j].on}}   \* the secrets a lookup accepts
\* A secret given to several keys may be judged by any of them.
Sure(u)     == Live(u) \ {u.apis[i].n : i \in {j \in DOMAIN u.apis : ~u.apis[j].on}}
Off(seq)    == [i \in DOMAIN seq |-> [seq[i] EXCEPT !.on = FALSE]]
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
In(x, seq)  == \E i \in DOMAIN seq : seq[i] = x

\* The former passwords kept with a new one.
Kept(n) == IF n < 1 THEN 9 ELSE n
Upto(seq, n) == SubSeq(seq, 1, IF Len(seq) < n THEN Len(seq) ELSE n)

\* What the texts of the vocabulary stand for.
BlankTexts == {"", " ", "blanks"}
Addresses  == {"ann@example.com", "Ann@example.com", "ann@example.org", "a.b+c@example.com", "root@localhost"}
\* The role a text stands for: its organization and its name.
Role(s) ==
  CASE s \in {"admin", " admin "}              -> <<"", "admin">>
    [] s \in {"acme/admin", "acme/admin  "}    -> <<"acme", "admin">>
    [] s = "acme/team/lead"                    -> <<"acme", "team/lead">>
    [] s = "Admin"                             -> <<"", "Admin">>
    [] s \in {"/admin"}                        -> <<"", "admin">>
    [] OTHER                                   -> << >>
\* The full name of a name given as last and first.
NameOf(a, b) == a \o (IF b = "" THEN "" ELSE ", " \o b)

Yes(u) == [u |-> u, ok |-> TRUE]
No(u)  == [u |-> u, ok |-> FALSE]

SetPassword(u, t, n) ==
  IF t \in BlankTexts THEN No(u)
  ELSE Yes([u EXCEPT !.pws = <<[t |-> t, on |-> TRUE]>> \o Upto(Off(u.pws), Kept(n))])
AddTo(u, f, x) == Yes(IF In(x, u[f]) THEN u ELSE [u EXCEPT ![f] = Append(@, x)])
DropAt(u, f, i) == IF i \in DOMAIN u[f] THEN Yes([u EXCEPT ![f] = Without(@, i)]) ELSE No(u)
AddRole(u, s) == IF Role(s) = << >> THEN No(u) ELSE AddTo(u, "roles", Role(s))

Apply(u, o) ==
  CASE o.op = "AddPassword"     -> SetPassword(u, o.a, o.n)
    [] o.op = "ChangePassword"  -> IF o.b \in Texts(u) THEN SetPassword(u, o.a, o.n) ELSE No(u)
    [] o.op = "VerifyPassword"  -> IF o.a \in Texts(u) THEN Yes(u) ELSE No(u)
    [] o.op = "AddEmailAddress" -> IF o.a \in Addresses THEN AddTo(u, "mails", o.a) ELSE No(u)
    [] o.op = "AddName"         -> AddTo(u, "names", NameOf(o.a, o.b))
    [] o.op = "AddRole"         -> AddRole(u, o.a)
    [] o.op = "AddRoles"        -> LET x == AddRole(u, o.a) IN IF ~x.ok THEN No(u) ELSE AddRole(x.u, o.b)
    [] o.op = "AddPublicKey"    -> \* a: which key; b: the usage
         IF (o.a \in {"rsa1", "rsa2"} /\ o.b = "ssh") \/ (o.a \in {"pgp1", "pgp2"} /\ o.b = "gpg")
         THEN IF \E i \in DOMAIN u.keys : u.keys[i].k = o.a THEN No(u) ELSE Yes([u EXCEPT !.keys = Append(@, [k |-> o.a, on |-> o.c # "off"])])
         ELSE No(u)
    [] o.op = "AddAPIKey"       -> \* n: which secret; a: the usage; b: the comment
         IF o.a = "api" /\ o.b # "" THEN Yes([u EXCEPT !.apis = Append(@, [n |-> o.n, on |-> o.c # "off"])]) ELSE No(u)
    [] o.op = "AddMfaToken"     -> \* a: the secret; b: the comment; c: "totp", "u2f", "wrong code", "off"
         IF o.c = "wrong code" \/ \E i \in DOMAIN u.toks : u.toks[i].s = o.a \/ u.toks[i].c = o.b THEN No(u)
         ELSE Yes([u EXCEPT !.toks = Append(@, [ty |-> IF o.c = "u2f" THEN "u2f" ELSE "totp", s |-> o.a, c |-> o.b, on |-> o.c # "off"])])
    [] o.op = "DeletePublicKey" -> DropAt(u, "keys", o.i)
    [] o.op = "DeleteAPIKey"    -> DropAt(u, "apis", o.i)
    [] o.op = "DeleteMfaToken"  -> DropAt(u, "toks", o.i)
    [] o.op = "LookupAPIKey"    -> IF o.n \in Live(u) THEN Yes(u) ELSE No(u)
    [] o.op = "Disable"         -> \* a: of which list
         IF o.i \in DOMAIN u[o.a] THEN Yes([u EXCEPT ![o.a][o.i].on = FALSE]) ELSE Yes(u)
    [] o.op = "Expire"          -> \* a mark set by the caller
         IF o.i \in DOMAIN u[o.a] THEN Yes([u EXCEPT ![o.a][o.i].on = FALSE]) ELSE Yes(u)
    [] o.op = "Revise"          -> Yes(u)

\* The operations that are changes even when the lists stay as they are.
Always == {"AddPassword", "ChangePassword", "Revise"}
Reads  == {"VerifyPassword", "LookupAPIKey"}
\* Entries are changed behind the back of the user.
Behind == {"Disable", "Expire"}
=============================================================================
