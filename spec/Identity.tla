------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* The identity database as a state machine.                               *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   [us  |-> sequence of users, in the order of their creation            *)
(*    rv  |-> revision of the database                                     *)
(*    lm  |-> time of the last modification                                *)
(*    pol |-> policy [kv, pmin, pmax, umin, umax, x]]                      *)
(* and a user is a record                                                  *)
(*   [id, idn, un, em, nm, nn, rl, pw, pk, ak, mf, rv, lm, cr, x]          *)
(* with em a sequence of email addresses, rl of roles <<org, name>>,       *)
(* pw of passwords [h, dis, exp, d], most recent first, pk of public keys  *)
(* [id, us, ky, cm, dis, exp, d], ak of API keys [id, idn, pf, us, cm, h,  *)
(* dis, exp, d], and mf of MFA tokens.  d and x are digests of everything  *)
(* else there is about an element, so equal records are equal in full.     *)
(*                                                                         *)
(* Texts are numbers, Texts[n] is the sequence of the code points.  Hashes *)
(* are opaque; the history variable sec maps a hash to the text it was     *)
(* made from.                                                              *)
(*                                                                         *)
(* Everything is written as functions, so the same definitions serve the   *)
(* exhaustive exploration of small models (MCIdentity), the validation of  *)
(* traces of the real library (Trace), and the search for sequential       *)
(* orders of concurrent histories (Lin).                                   *)
(*                                                                         *)
(* Reasons(s, sec, op, a) is the set of the reasons to refuse a request:   *)
(* the request succeeds exactly when it is empty and the file can be       *)
(* written.  Effect(s, op, a, f) is the state after the success, f having  *)
(* the values that are not determined by the request (new identifiers,     *)
(* hashes, times).                                                         *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

\* The table of the texts comes with the trace, or with the model.  (It is a
\* definition, and not a constant of the module, since TLC evaluates it once.)
Texts == JsonDeserialize(IOEnv.TEXTS)

T(i) == Texts[i]

\* The number of a text, 0 when it has none.
Num(q) == LET m == {i \in 1..Len(Texts) : Texts[i] = q} IN IF m = {} THEN 0 ELSE Min(m)

\* Tables over all texts, computed once.
Low == TLCEval([i \in 1..Len(Texts) |-> LowerT(Texts[i])])

Writes   == {"AddUser", "ChangeUserPassword", "Save", "Copy", "AddAPIKey", "DeleteAPIKey", "AddPublicKey",
             "DeletePublicKey", "AddMfaToken", "DeleteMfaToken"}
UserWrites == Writes \ {"Save", "Copy", "AddUser"}

\* The texts some operation compares with.
tUsageApi == <<97, 112, 105>>
tUsageSsh == <<115, 115, 104>>
tUsageGpg == <<103, 112, 103>>
tNobody   == <<110, 111, 98, 111, 100, 121>>
tNobodyAt == tNobody \o <<64, 108, 111, 99, 97, 108, 104, 111, 115, 116>>
tSha1     == <<115, 104, 97, 49>>
tSha256   == <<115, 104, 97, 50, 53, 54>>
tSha512   == <<115, 104, 97, 53, 49, 50>>

(***************************************************************************)
(* Who is meant.                                                           *)
(***************************************************************************)
ByName(s, t)  == {i \in DOMAIN s.us : Low[s.us[i].un] = Low[t]}
ByEmail(s, t) == {i \in DOMAIN s.us : \E j \in DOMAIN s.us[i].em : Low[s.us[i].em[j]] = Low[t]}
ByLogin(s, t) == IF HasCp(T(t), 64) THEN ByEmail(s, t) ELSE ByName(s, t)
\* Both the username and the email address designate the user.
Bound(s, a)   == ByName(s, a.un) \cap ByEmail(s, a.em)
Who(set)      == CHOOSE i \in set : TRUE

(***************************************************************************)
(* Secrets.                                                                *)
(***************************************************************************)
Active(x)     == ~x.dis /\ ~x.exp
SecretOf(sec, h) == IF h \in DOMAIN sec THEN sec[h] ELSE 0
HasPassword(sec, u, t) == \E j \in DOMAIN u.pw : Active(u.pw[j]) /\ SecretOf(sec, u.pw[j].h) = t
SameKey(t1, t2) == t1 = t2 \/ BKey(T(t1)) = BKey(T(t2))
\* bcrypt cannot tell apart texts agreeing in the 72 bytes it looks at.
CollidingPassword(sec, u, t) ==
  \E j \in DOMAIN u.pw : Active(u.pw[j]) /\ SecretOf(sec, u.pw[j].h) # 0 /\ SameKey(SecretOf(sec, u.pw[j].h), t)

KeyOwner(s, pf) == {i \in DOMAIN s.us : \E j \in DOMAIN s.us[i].ak : s.us[i].ak[j].pf = pf}
KeyFound(s, sec, a, same(_, _)) ==
  {i \in DOMAIN s.us : \E j \in DOMAIN s.us[i].ak :
      LET k == s.us[i].ak[j]
      IN  /\ k.pf = a.pf
          /\ Active(k)
          /\ SecretOf(sec, k.h) # 0
          /\ same(SecretOf(sec, k.h), a.pl)}
Same(x, y) == x = y

(***************************************************************************)
(* Reasons to refuse a request.                                            *)
(***************************************************************************)
If(c, r) == IF c THEN {r} ELSE {}

LengthsOK(s, a, user) ==
  /\ user => ByteLen(T(a.un)) >= s.pol.umin /\ ByteLen(T(a.un)) <= s.pol.umax
  /\ ByteLen(T(a.pw)) >= s.pol.pmin /\ ByteLen(T(a.pw)) <= s.pol.pmax

AddUserReasons(s, a) ==
  If(~LengthsOK(s, a, TRUE), "policy")
  \cup If(~ValidUtf8(T(a.un)) \/ ~ValidUtf8(T(a.fn)) \/ \E i \in DOMAIN a.rl : ~ValidUtf8(T(a.rl[i])), "utf8")
  \cup If(Blank(T(a.pw)), "blank")
  \cup If(T(a.un) = << >>, "username")
  \cup If(~EmailOK(T(a.em)), "email")
  \cup If(\E i \in DOMAIN a.rl : ~RoleOK(T(a.rl[i])), "role")
  \cup If(~Blank(T(a.fn)) /\ NameParts(T(a.fn)) = << >>, "name")
  \cup If(ByName(s, a.un) # {} \/ ByEmail(s, a.em) # {}, "taken")

BindReasons(s, a) == If(Bound(s, a) = {}, "bind")

ChangePasswordReasons(s, sec, a) ==
  LET b == Bound(s, a)
  IN  If(b = {}, "bind")
      \cup If(b # {} /\ ~HasPassword(sec, s.us[Who(b)], a.old), "old")
      \cup If(~LengthsOK(s, a, FALSE), "policy")
      \cup If(Blank(T(a.pw)), "blank")

AddAPIKeyReasons(s, a) ==
  BindReasons(s, a)
  \cup If(T(a.us) # tUsageApi, "usage")
  \cup If(T(a.cm) = << >>, "comment")
  \cup If(~ValidUtf8(T(a.cm)), "utf8")

DeleteReasons(s, a, keys(_)) ==
  LET b == Bound(s, a)
  IN  If(b = {}, "bind")
      \cup If(b # {} /\ ~ \E j \in DOMAIN keys(s.us[Who(b)]) : keys(s.us[Who(b)])[j].id = a.id, "id")

KeysAPI(u) == u.ak
KeysPub(u) == u.pk
KeysMfa(u) == u.mf

\* a.form is pem, ssh or pgp for a well-formed key of a supported kind.
AddPublicKeyReasons(s, a) ==
  LET b == Bound(s, a)
  IN  If(b = {}, "bind")
      \cup If(a.form \notin {"pem", "ssh", "pgp"}, "form")
      \cup If(a.form \in {"pem", "ssh"} /\ T(a.us) # tUsageSsh, "usage")
      \cup If(a.form = "pgp" /\ T(a.us) # tUsageGpg, "usage")
      \cup If(a.form \notin {"pem", "ssh", "pgp"} /\ T(a.us) \notin {tUsageSsh, tUsageGpg}, "usage")
      \cup If(~ValidUtf8(T(a.cm)) \/ ~ValidUtf8(T(a.kcm)), "utf8")
      \cup If(b # {} /\ a.ky # 0 /\ \E j \in DOMAIN s.us[Who(b)].pk : s.us[Who(b)].pk[j].ky = a.ky, "duplicate")

Algorithm(t) ==
  LET l == Low[t]
  IN  CASE l = << >> \/ l = tSha1 -> "sha1"
        [] l = tSha256            -> "sha256"
        [] l = tSha512            -> "sha512"
        [] OTHER                  -> "?"

\* a.offs has the offsets, from the current period, of the periods whose code
\* the given passcode is.
TotpReasons(a) ==
  If(Algorithm(a.al) = "?", "algorithm")
  \cup If(a.pe < 30 \/ a.pe > 300, "period")
  \cup If(a.di # 0 /\ (a.di < 4 \/ a.di > 8), "digits")
  \cup If(ToSet(a.offs) \cap {-2, -1, 0} = {}, "code")

AddMfaTokenReasons(s, a) ==
  LET b == Bound(s, a)
  IN  If(b = {}, "bind")
      \cup If(a.ty \notin {"totp", "u2f"}, "type")
      \cup If(~ValidUtf8(T(a.cm)) \/ ~ValidUtf8(T(a.se)), "utf8")
      \cup (IF a.ty = "totp" THEN TotpReasons(a) ELSE {})
      \cup (IF a.ty = "u2f" THEN If(~a.wf, "registration") \cup If(T(a.se) = << >>, "challenge") ELSE {})
      \cup If(b # {} /\ \E j \in DOMAIN s.us[Who(b)].mf :
                 LET k == s.us[Who(b)].mf[j] IN k.se = a.se \/ k.cm = a.cm, "duplicate")

\* A login with a password; one with an assertion, when there is no password.
AssertionOK(u, as) ==
  \E j \in DOMAIN u.mf :
    LET k == u.mf[j]
    IN  /\ k.ty = "u2f" /\ ~k.dis /\ k.u2 = as.u2
        /\ k.kx = as.kx /\ k.rp = as.rp
        /\ as.wf /\ as.up /\ as.ty = "webauthn.get" /\ ~as.xo /\ as.ch = as.want /\ as.sig

AuthReasons(s, sec, a) ==
  LET w == ByLogin(s, a.un)
  IN  IF w = {} THEN {"unknown"}
      ELSE IF T(a.pw) # << >> THEN If(~HasPassword(sec, s.us[Who(w)], a.pw), "password")
      ELSE IF a.wa THEN If(~AssertionOK(s.us[Who(w)], a.as), "assertion")
      ELSE {"malformed"}

LookupReasons(s, sec, a) == If(KeyFound(s, sec, a, Same) = {}, "key")

Reasons(s, sec, op, a) ==
  CASE op = "AddUser"            -> AddUserReasons(s, a)
    [] op = "ChangeUserPassword" -> ChangePasswordReasons(s, sec, a)
    [] op = "AddAPIKey"          -> AddAPIKeyReasons(s, a)
    [] op = "DeleteAPIKey"       -> DeleteReasons(s, a, KeysAPI)
    [] op = "AddPublicKey"       -> AddPublicKeyReasons(s, a)
    [] op = "DeletePublicKey"    -> DeleteReasons(s, a, KeysPub)
    [] op = "AddMfaToken"        -> AddMfaTokenReasons(s, a)
    [] op = "DeleteMfaToken"     -> DeleteReasons(s, a, KeysMfa)
    [] op = "AuthenticateUser"   -> AuthReasons(s, sec, a)
    [] op = "LookupAPIKey"       -> LookupReasons(s, sec, a)
    [] op \in {"GetUsers", "GetUser", "GetAPIKeys", "GetPublicKeys", "GetMfaTokens"} -> BindReasons(s, a)
    [] op = "DeleteUser"         -> {"unsupported"}
    [] op = "Copy"               -> If(a.bad, "target")
    [] OTHER                     -> {}

(***************************************************************************)
(* Effects of the requests that succeed.                                   *)
(***************************************************************************)
Revised(u, f)    == [u EXCEPT !.rv = @ + 1, !.lm = f.ut]
Committed(s, f)  == [s EXCEPT !.rv = @ + 1, !.lm = f.dt]

Dedup(q) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), << >>, q)

NewUser(a, f) ==
  LET np == NameParts(T(a.fn))
      rl == Dedup([i \in DOMAIN a.rl |-> RoleOf(T(a.rl[i]))])
  IN [id |-> f.id, idn |-> 36, un |-> a.un, em |-> <<a.em>>,
      nm |-> IF np = << >> \/ Blank(T(a.fn)) THEN << >> ELSE <<Num(np[1]), Num(np[2])>>,
      nn |-> IF np = << >> \/ Blank(T(a.fn)) THEN 0 ELSE 1,
      rl |-> [i \in DOMAIN rl |-> <<Num(rl[i][1]), Num(rl[i][2])>>],
      pw |-> <<[h |-> f.h, dis |-> FALSE, exp |-> FALSE, d |-> f.d]>>,
      pk |-> << >>, ak |-> << >>, mf |-> << >>,
      rv |-> 0, lm |-> f.ut, cr |-> f.ct, x |-> f.x]

Keep(s) == IF s.pol.kv < 1 THEN 9 ELSE s.pol.kv

Retired(p, d) == IF p.dis THEN p ELSE [p EXCEPT !.dis = TRUE, !.exp = TRUE, !.d = d]

NewPasswords(s, u, f) ==
  LET n == Min({Keep(s), Len(u.pw)})
  IN  <<[h |-> f.h, dis |-> FALSE, exp |-> FALSE, d |-> f.d]>>
      \o [j \in 1..n |-> Retired(u.pw[j], f.ds[j])]

Without(q, id) == SelectSeq(q, LAMBDA k : k.id # id)

NewAPIKey(a, f) ==
  [id |-> f.id, idn |-> 40, pf |-> f.pf, us |-> a.us, cm |-> a.cm, h |-> f.h, dis |-> a.dis, exp |-> FALSE, d |-> f.d]

\* The comment within an OpenSSH key takes precedence; the one of a PGP key
\* tells of the key.
NewPublicKey(a, f) ==
  [id |-> f.id, us |-> a.us, ky |-> a.ky,
   cm |-> IF a.form = "pgp" THEN f.cm
          ELSE IF a.form = "ssh" /\ ~Blank(T(a.kcm)) THEN Num(Trim(T(a.kcm)))
          ELSE a.cm,
   dis |-> a.dis, exp |-> FALSE, d |-> f.d]

NewToken(a, f) ==
  [id |-> f.id, idn |-> 40, ty |-> a.ty, cm |-> a.cm, se |-> a.se,
   al |-> IF a.ty = "totp" THEN Algorithm(a.al) ELSE "",
   pe |-> IF a.ty = "totp" THEN a.pe ELSE 0,
   di |-> IF a.ty = "totp" THEN (IF a.di = 0 THEN 6 ELSE a.di) ELSE 0,
   dis |-> a.dis, exp |-> FALSE,
   u2 |-> IF a.ty = "u2f" THEN a.u2 ELSE Num(<< >>),
   kx |-> IF a.ty = "u2f" THEN a.kx ELSE 0,
   rp |-> IF a.ty = "u2f" THEN a.rp ELSE 0,
   d |-> f.d]

EffectOnUser(s, op, a, u, f) ==
  CASE op = "ChangeUserPassword" -> [u EXCEPT !.pw = NewPasswords(s, u, f)]
    [] op = "AddAPIKey"          -> [u EXCEPT !.ak = Append(@, NewAPIKey(a, f))]
    [] op = "DeleteAPIKey"       -> [u EXCEPT !.ak = Without(@, a.id)]
    [] op = "AddPublicKey"       -> [u EXCEPT !.pk = Append(@, NewPublicKey(a, f))]
    [] op = "DeletePublicKey"    -> [u EXCEPT !.pk = Without(@, a.id)]
    [] op = "AddMfaToken"        -> [u EXCEPT !.mf = Append(@, NewToken(a, f))]
    [] op = "DeleteMfaToken"     -> [u EXCEPT !.mf = Without(@, a.id)]

\* A request to save may stand for some, one right after another.
Times(a) == IF "n" \in DOMAIN a THEN a.n ELSE 1

Effect(s, op, a, f) ==
  CASE op = "AddUser"            -> Committed([s EXCEPT !.us = Append(@, NewUser(a, f))], f)
    [] op \in UserWrites         -> LET i == Who(Bound(s, a))
                                    IN  Committed([s EXCEPT !.us[i] = Revised(EffectOnUser(s, op, a, @, f), f)], f)
    [] op = "Save"               -> [Committed(s, f) EXCEPT !.rv = s.rv + Times(a)]
    [] op = "Copy"               -> Committed(s, f)
    [] OTHER                     -> s

(***************************************************************************)
(* What the reading requests report.                                       *)
(***************************************************************************)
Enabled(q)     == SelectSeq(q, LAMBDA k : ~k.dis)
OfUsage(q, us) == SelectSeq(q, LAMBDA k : ~k.dis /\ k.us = us)
Listing(s, op, a) ==
  LET u == s.us[Who(Bound(s, a))]
  IN  CASE op = "GetAPIKeys"    -> OfUsage(u.ak, a.us)
        [] op = "GetPublicKeys" -> OfUsage(u.pk, a.us)
        [] op = "GetMfaTokens"  -> Enabled(u.mf)

Challenges(u) == IF Enabled(u.mf) = << >> THEN <<"password">> ELSE <<"password", "mfa">>
FlagsOf(u)    == << Enabled(u.mf) # << >>,
                    \E j \in DOMAIN u.mf : ~u.mf[j].dis /\ u.mf[j].ty = "totp",
                    \E j \in DOMAIN u.mf : ~u.mf[j].dis /\ u.mf[j].ty = "u2f" >>
MailText(u)   == IF u.em = << >> THEN << >> ELSE T(u.em[1])
NameText(u)   == IF u.nm = << >> THEN << >> ELSE FullName(T(u.nm[1]), T(u.nm[2]))
RolesText(u)  == [i \in DOMAIN u.rl |-> RoleText(<<T(u.rl[i][1]), T(u.rl[i][2])>>)]

\* What identifying a name reports: [un, em, fn, rl (texts), ch, fl, code].
Identified(s, a) ==
  LET w == ByLogin(s, a.un)
  IN  IF w = {}
      THEN [known |-> FALSE, un |-> tNobody, em |-> tNobodyAt, fn |-> << >>, rl |-> << >>,
            ch |-> <<"password">>, fl |-> <<FALSE, FALSE, FALSE>>, code |-> 0]
      ELSE LET u == s.us[Who(w)]
           IN  [known |-> TRUE, un |-> T(u.un), em |-> MailText(u), fn |-> NameText(u), rl |-> RolesText(u),
                ch |-> Challenges(u), fl |-> IF a.fl THEN FlagsOf(u) ELSE <<FALSE, FALSE, FALSE>>, code |-> 200]

Metadata(s) == [i \in DOMAIN s.us |->
  LET u == s.us[i] IN [id |-> u.id, un |-> T(u.un), em |-> MailText(u), nm |-> NameText(u), rv |-> u.rv, lm |-> u.lm, cr |-> u.cr]]

(***************************************************************************)
(* Invariants of the states.                                               *)
(***************************************************************************)
UniqueUsers(s) ==
  \A i, j \in DOMAIN s.us : i # j =>
     /\ s.us[i].id # s.us[j].id
     /\ Low[s.us[i].un] # Low[s.us[j].un]
     /\ {Low[s.us[i].em[k]] : k \in DOMAIN s.us[i].em} \cap {Low[s.us[j].em[k]] : k \in DOMAIN s.us[j].em} = {}
KeyPlaces(s) == UNION {{<<i, j>> : j \in DOMAIN s.us[i].ak} : i \in DOMAIN s.us}
UniquePrefixes(s) ==
  Cardinality({s.us[p[1]].ak[p[2]].pf : p \in KeyPlaces(s)}) = Cardinality(KeyPlaces(s))
UniqueKeys(s) ==  \* public keys of a user
  \A i \in DOMAIN s.us : \A j, k \in DOMAIN s.us[i].pk :
     j # k /\ s.us[i].pk[j].ky # 0 => s.us[i].pk[j].ky # s.us[i].pk[k].ky
UniqueTokens(s) ==
  \A i \in DOMAIN s.us : \A j, k \in DOMAIN s.us[i].mf :
     j # k => s.us[i].mf[j].se # s.us[i].mf[k].se /\ s.us[i].mf[j].cm # s.us[i].mf[k].cm
=============================================================================
