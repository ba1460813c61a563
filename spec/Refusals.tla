------------------------------ MODULE Refusals ------------------------------
(***************************************************************************)
(* What a refusal says.  The error of an operation is recognisable as one  *)
(* of that operation (r.ref.home), and the reasons it names (r.ref.says,   *)
(* those of the library's own reasons found in its text) apply: the state  *)
(* and the request are such that the operation may be refused for them.    *)
(* Which of several reasons is named is left open.                         *)
(***************************************************************************)
EXTENDS Results

Bindings == UserWrites \cup {"GetUsers", "GetUser", "DeleteUser", "GetAPIKeys", "GetPublicKeys", "GetMfaTokens"}
Registering == {"registration", "document", "register id", "register type empty", "register type", "register transport empty", "register transport", "register object",
                "register data", "register credential", "register party", "register flags", "register key", "register key type", "register no key type",
                "register algorithm", "register no algorithm", "register curve", "register kind", "register point", "register x", "register y"}
WellFormed == {"pem", "ssh", "pgp"}

\* The reasons that apply, by their names.
Apt(st, sec, op, a, rs) ==
  LET byName == IF "un" \in DOMAIN a THEN ByName(st, a.un) ELSE {}
      bound  == op \in Bindings
      differ == byName # {} /\ ByEmail(st, a.em) # {} /\ Bound(st, a) = {}
      b      == Bound(st, a)
      len(t) == ByteLen(T(t))
      shape  == IF op = "AddPublicKey" THEN a.form \notin WellFormed ELSE FALSE
  IN  (IF bound THEN If(byName = {} \/ ByEmail(st, a.em) = {}, "no user") \cup If(differ, "differ") ELSE {})
      \cup If("utf8" \in rs, "utf8")
      \cup If("blank" \in rs, "blank")
      \cup (CASE op = "AddUser" ->
                   (rs \cap {"username", "email", "role", "name"})
                   \cup If(len(a.un) < st.pol.umin \/ len(a.un) > st.pol.umax, "user policy")
                   \cup If(len(a.pw) < st.pol.pmin \/ len(a.pw) > st.pol.pmax, "password policy")
                   \cup If(byName # {}, "username taken") \cup If(ByEmail(st, a.em) # {}, "email taken")
              [] op = "ChangeUserPassword" ->
                   If(len(a.pw) < st.pol.pmin \/ len(a.pw) > st.pol.pmax, "password policy")
                   \cup If("old" \in rs, "password") \cup If(b # {} /\ st.us[Who(b)].pw = << >>, "no password")
              [] op = "AuthenticateUser" ->
                   LET w == ByLogin(st, a.un)
                   IN  If(w = {}, "no user")
                       \cup If("password" \in rs, "password")
                       \cup If("assertion" \in rs, "login") \cup If("assertion" \in rs, "assertion") \cup If("assertion" \in rs, "document")
                       \cup If("malformed" \in rs, "malformed")
              [] op = "AddAPIKey" ->
                   If(T(a.us) = << >>, "api usage empty") \cup If(T(a.us) # << >> /\ "usage" \in rs, "api usage") \cup If("comment" \in rs, "api comment")
              [] op = "LookupAPIKey" ->
                   If("key" \in rs, "key failed") \cup If(T(a.pl) = << >>, "key empty") \cup If(len(a.pl) < 72 \/ len(a.pl) > 95 \/ ~ \A i \in DOMAIN T(a.pl) : AlphaNum(T(a.pl)[i]), "key malformed")
              [] op = "AddPublicKey" ->
                   If(T(a.us) \notin {tUsageSsh, tUsageGpg}, "key usage")
                   \cup If(shape \/ "usage" \in rs, "key mismatch")
                   \cup (IF shape THEN {"key payload", "key block", "key parse", "key type", "key unsupported", "utf8"} ELSE {})
                   \* the form of a key is looked for as the usage says
                   \cup If("usage" \in rs, "key block") \cup If("usage" \in rs, "key parse") \cup If("usage" \in rs, "key unsupported")
                   \cup If("duplicate" \in rs \/ shape, "key exists")
              [] op = "AddMfaToken" ->
                   If(a.ty = "", "type empty") \cup If(a.ty # "" /\ "type" \in rs, "type")
                   \cup (rs \cap {"algorithm", "period", "digits", "code", "challenge"})
                   \cup (IF "registration" \in rs THEN Registering ELSE {})
                   \cup (IF b = {} THEN {}
                         ELSE LET mf == st.us[Who(b)].mf
                              IN  If(\E j \in DOMAIN mf : mf[j].se = a.se, "same secret") \cup If(\E j \in DOMAIN mf : mf[j].cm = a.cm, "same comment"))
              [] op \in {"DeleteAPIKey", "DeletePublicKey"} -> If("id" \in rs, "no id")
              [] op = "DeleteMfaToken" -> If("id" \in rs, "no token")
              [] op = "DeleteUser" -> {"unsupported"}
              [] OTHER -> {})

\* Failures of the file system are named with the commit.
MayFail(r) == r.fault \/ r.may \/ (r.op = "Copy" /\ r.a.bad)

RefusalDiffs(st, sec, r, rs) ==
  IF ~Has(r, "ref") THEN {}
  ELSE LET apt == Apt(st, sec, r.op, r.a, rs) \cup If(MayFail(r), "commit") \cup If(Has(r.a, "amb") /\ r.a.amb, "code")
           said == ToSet(r.ref.says)
       IN  If(~r.ref.home, D("refusal", "not recognisable: " \o r.err, {"C26"}))
           \cup If(said = {} /\ r.op # "Reload", D("refusal", "no reason: " \o r.err, {"C26"}))
           \cup If(~(said \subseteq apt), D("refusal", ToString(said \ apt) \o " does not apply: " \o r.err, {"C26"}))
           \cup If(r.echo # 0, D("leak", "the refusal repeats a secret", {"C16"}))
=============================================================================
