-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* Small instances of Identity, explored exhaustively.  Each feature has   *)
(* its pool of requests; in each reachable state every request of the pool *)
(* is made, both with a file that can be written and with one that cannot. *)
(*                                                                         *)
(* Besides the state, history variables remember what the requests that    *)
(* succeeded mean for the users: the password last set for each user (cur),*)
(* those set before (past), and the API keys issued and not deleted since  *)
(* (live).  The invariants tie the answers to these histories.             *)
(*                                                                         *)
(* Every step is printed as an EDGE; tours covering all edges are replayed *)
(* into the real library (see tools/tours.py), and the trace of the replay *)
(* is validated by Trace.                                                  *)
(***************************************************************************)
EXTENDS Identity

CONSTANTS Feature,   \* which pool of requests
          KV,        \* password versions to keep
          Slots      \* how many keys or tokens there may be

VARIABLES s, cur, past, live, live2

vars == <<s, cur, past, live, live2>>

N(q) == Num(q)
\* The texts of the model, by name: the first record of texts of the model.
Names == JsonDeserialize(IOEnv.NAMES)
X(k)  == Names[k]

Pol == [kv |-> KV, pmin |-> 8, pmax |-> 128, umin |-> 3, umax |-> 50, x |-> 0]
Empty == [us |-> << >>, rv |-> 0, lm |-> 0, pol |-> Pol, d |-> 0]

\* Hash of a password: its text.  Of an API key in slot k: 1000 + k.
Sec == [h \in 1..(1000 + Slots) |-> IF h > 1000 THEN X("key" \o ToString(h - 1000)) ELSE IF h <= Len(Texts) THEN h ELSE 0]

Zero(q) == [q EXCEPT !.rv = 0, !.lm = 0, !.us = [i \in DOMAIN @ |-> [@[i] EXCEPT !.rv = 0, !.lm = 0, !.cr = 0]]]

(***************************************************************************)
(* Pools.                                                                  *)
(***************************************************************************)
U1 == [un |-> X("alice"), em |-> X("a@x.io")]
U2 == [un |-> X("bob"), em |-> X("b@x.io")]
Mixed == {[un |-> X("alice"), em |-> X("b@x.io")], [un |-> X("alice"), em |-> X("none@x.io")],
          [un |-> X("nobody"), em |-> X("a@x.io")], [un |-> X("ALICE"), em |-> X("A@X.IO")]}
Who12 == {U1, U2} \cup Mixed

R(op, a) == [op |-> op, a |-> a, fault |-> FALSE]
Faulty(q) == [q EXCEPT !.fault = TRUE]

AddU(u, pw, fn, rl) == R("AddUser", [un |-> u.un, em |-> u.em, pw |-> pw, fn |-> fn, rl |-> rl])
Std(u) == AddU(u, X("password-1"), X("John Smith"), <<X("admin"), X("org/user")>>)
Reads(us) == {R("GetUsers", u) : u \in us} \cup {R("GetUser", u) : u \in us}
Files == {R("Save", [none |-> 0]), R("Reload", [none |-> 0]), R("Copy", [bad |-> FALSE])}
Auth(un, pw) == R("AuthenticateUser", [un |-> un, pw |-> pw, wa |-> FALSE])
Ident(un) == R("IdentifyUser", [un |-> un, fl |-> TRUE])

UsersPool ==
  LET names  == {X("alice"), X("ALICE"), X("bob")} \cup (IF Slots > 2 THEN {X("zoe"), X("ZOE")} ELSE {})
      mails  == {X("a@x.io"), X("A@X.IO"), X("b@x.io")} \cup (IF Slots > 2 THEN {X("z@x.io")} ELSE {})
      all    == {[un |-> u, em |-> e] : u \in names, e \in mails}
  IN  {Std(u) : u \in all}
      \cup {AddU(U2, X("short"), X("empty"), << >>), AddU([U2 EXCEPT !.un = X("al")], X("password-1"), X("empty"), << >>),
            AddU([U2 EXCEPT !.em = X("bob")], X("password-1"), X("empty"), << >>),
            AddU(U2, X("password-1"), X("One"), << >>), AddU(U2, X("password-1"), X("empty"), <<X("admin"), X("blank")>>),
            AddU(U2, X("blanks"), X("empty"), << >>)}
      \cup {Auth(l, p) : l \in names \cup mails \cup {X("nobody")}, p \in {X("password-1"), X("password-2")}}
      \cup {Ident(l) : l \in names \cup mails \cup {X("nobody"), X("none@x.io")}}
      \cup Reads(all) \cup Files \cup {R("GetUserCount", [none |-> 0]), R("DeleteUser", U1)}

PasswordPool ==
  LET ps == {X("password-1"), X("password-2"), X("PASSWORD-1")} \cup (IF Slots > 2 THEN {X("password-3")} ELSE {})
  IN  {Std(U1), Std(U2)}
      \cup {R("ChangeUserPassword", [un |-> U1.un, em |-> U1.em, old |-> o, pw |-> p]) : o \in ps, p \in ps \cup {X("short")}}
      \cup {R("ChangeUserPassword", [un |-> U2.un, em |-> U2.em, old |-> o, pw |-> p]) : o \in {X("password-1"), X("password-2")}, p \in {X("password-2")}}
      \cup {R("ChangeUserPassword", [un |-> u.un, em |-> u.em, old |-> X("password-1"), pw |-> X("password-2")]) : u \in Mixed}
      \cup {Auth(l, p) : l \in {U1.un, U2.em}, p \in ps \cup {X("empty")}}
      \cup Files

ApiPool ==
  {Std(U1), Std(U2)}
  \cup {R("AddAPIKey", [un |-> u.un, em |-> u.em, us |-> X("api"), cm |-> X("comment"), dis |-> d]) : u \in {U1, U2}, d \in BOOLEAN}
  \cup {R("AddAPIKey", [un |-> u.un, em |-> u.em, us |-> X("api"), cm |-> X("comment"), dis |-> FALSE]) : u \in Mixed}
  \cup {R("AddAPIKey", [un |-> U1.un, em |-> U1.em, us |-> X("ssh"), cm |-> X("comment"), dis |-> FALSE]),
        R("AddAPIKey", [un |-> U1.un, em |-> U1.em, us |-> X("API"), cm |-> X("comment"), dis |-> FALSE]),
        R("AddAPIKey", [un |-> U1.un, em |-> U1.em, us |-> X("api"), cm |-> X("empty"), dis |-> FALSE])}
  \cup {R("DeleteAPIKey", [un |-> u.un, em |-> u.em, id |-> k]) : u \in {U1, U2}, k \in 1..Slots}
  \cup {R("DeleteAPIKey", [un |-> u.un, em |-> u.em, id |-> 1]) : u \in Mixed}
  \cup {R("LookupAPIKey", [pl |-> X("key" \o ToString(k)), pf |-> k]) : k \in 1..Slots}
  \cup {R("LookupAPIKey", [pl |-> X("forged" \o ToString(k)), pf |-> k]) : k \in 1..Slots}
  \cup {R("GetAPIKeys", [un |-> u.un, em |-> u.em, us |-> X("api")]) : u \in {U1, U2} \cup Mixed}
  \cup {R("GetAPIKeys", [un |-> U1.un, em |-> U1.em, us |-> us]) : us \in {X("API"), X("ssh"), X("empty")}}
  \cup Files

PublicPool ==
  LET add(u, us, form, ky, dis) == R("AddPublicKey", [un |-> u.un, em |-> u.em, us |-> us, cm |-> X("comment"), dis |-> dis, ky |-> ky, form |-> form, kcm |-> X("empty")])
      ssh == X("ssh")  gpg == X("gpg")
  IN  {Std(U1), Std(U2)}
      \cup {add(u, ssh, fm, k, FALSE) : u \in {U1, U2}, fm \in {"pem", "ssh"}, k \in {1, 2}}
      \cup {add(u, gpg, "pgp", 11, FALSE) : u \in {U1, U2}}
      \cup {add(U1, ssh, "pem", 1, TRUE), add(U1, gpg, "pem", 1, FALSE), add(U1, gpg, "ssh", 1, FALSE), add(U1, ssh, "pgp", 11, FALSE), add(U1, X("api"), "pem", 1, FALSE),
            add(U1, X("SSH"), "ssh", 1, FALSE), add(U1, X("GPG"), "pgp", 11, FALSE)}
      \cup {add(u, ssh, "pem", 1, FALSE) : u \in Mixed}
      \cup {R("DeletePublicKey", [un |-> u.un, em |-> u.em, id |-> k]) : u \in {U1, U2}, k \in (1..Slots) \cup {111}}
      \cup {R("DeletePublicKey", [un |-> u.un, em |-> u.em, id |-> 1]) : u \in Mixed}
      \cup {R("GetPublicKeys", [un |-> u.un, em |-> u.em, us |-> x]) : u \in {U1, U2} \cup Mixed, x \in {ssh, gpg}}
      \cup {R("GetPublicKeys", [un |-> U1.un, em |-> U1.em, us |-> x]) : x \in {X("SSH"), X("GPG"), X("api"), X("empty")}}
      \cup Files

Key(k) == [u2 |-> X("cred" \o ToString(k)), kx |-> k, rp |-> 1]
MfaPool ==
  LET totp(u, se, cm, off, dis) == R("AddMfaToken", [un |-> u.un, em |-> u.em, ty |-> "totp", cm |-> cm, se |-> se, al |-> X("sha1"), pe |-> 30, di |-> 6, dis |-> dis, offs |-> <<off>>])
      u2f(u, k, se, cm, wf, dis) == R("AddMfaToken", [un |-> u.un, em |-> u.em, ty |-> "u2f", cm |-> cm, se |-> se, wf |-> wf, u2 |-> Key(k).u2, kx |-> k, rp |-> 1, dis |-> dis])
      as(u, k, ch, up, sig) == R("AuthenticateUser", [un |-> u.un, pw |-> X("empty"), wa |-> TRUE,
              as |-> [u2 |-> Key(k).u2, kx |-> k, rp |-> 1, wf |-> TRUE, up |-> up, ty |-> "webauthn.get", xo |-> FALSE, ch |-> ch, want |-> X("chal-1"), sig |-> sig]])
      se1 == X("secret-1") se2 == X("secret-2") c1 == X("comment") c2 == X("comment2")
  IN  {Std(U1), Std(U2)}
      \cup {totp(U1, se, cm, 0, d) : se \in {se1, se2}, cm \in {c1, c2}, d \in BOOLEAN}
      \cup {totp(U1, se1, c1, 5, FALSE), totp(U2, se1, c1, -2, FALSE)}
      \cup {u2f(U1, k, se, cm, TRUE, FALSE) : k \in {1, 2}, se \in {se1, X("chal-1")}, cm \in {c1, c2}}
      \cup {u2f(U1, 1, se2, c2, TRUE, TRUE), u2f(U1, 1, se2, c2, FALSE, FALSE), u2f(U2, 2, se2, c2, TRUE, FALSE), u2f(U1, 1, X("empty"), c2, TRUE, FALSE)}
      \cup {totp(u, se1, c1, 0, FALSE) : u \in Mixed}
      \cup {as(u, k, X("chal-1"), TRUE, TRUE) : u \in {U1, U2}, k \in {1, 2}}
      \cup {as(U1, 1, X("secret-1"), TRUE, TRUE), as(U1, 1, X("chal-1"), FALSE, TRUE), as(U1, 1, X("chal-1"), TRUE, FALSE)}
      \cup {R("DeleteMfaToken", [un |-> u.un, em |-> u.em, id |-> k]) : u \in {U1, U2}, k \in 1..Slots}
      \cup {R("DeleteMfaToken", [un |-> u.un, em |-> u.em, id |-> 1]) : u \in Mixed}
      \cup {R("GetMfaTokens", [un |-> u.un, em |-> u.em, us |-> X("empty")]) : u \in {U1, U2} \cup Mixed}
      \cup {Ident(U1.un), Ident(U2.em), Ident(X("nobody"))}
      \cup Files

Pool == CASE Feature = "users"    -> UsersPool
          [] Feature = "password" -> PasswordPool
          [] Feature = "api"      -> ApiPool
          [] Feature = "public"   -> PublicPool
          [] Feature = "mfa"      -> MfaPool

\* In all features but the first one, the two users come first.
Enough == Feature = "users" \/ Len(s.us) = 2
Allowed(q) ==
  IF Feature = "users" THEN TRUE
  ELSE IF Len(s.us) = 2 THEN q.op # "AddUser"
  ELSE q = (IF Len(s.us) = 0 THEN Std(U1) ELSE Std(U2))

(***************************************************************************)
(* Fresh values: the lowest free slot, shared by all users.                *)
(***************************************************************************)
Taken(kind(_)) == UNION {{kind(s.us[i])[j].id : j \in DOMAIN kind(s.us[i])} : i \in DOMAIN s.us}
Slot(kind(_)) == Min((1..(Slots + 1)) \ Taken(kind))
\* (The id of a PGP key is its own.)
SlotFor(q) == CASE q.op = "AddAPIKey" -> Slot(KeysAPI)
                [] q.op = "AddPublicKey" -> IF q.a.form = "pgp" THEN 100 + q.a.ky ELSE Slot(KeysPub)
                [] q.op = "AddMfaToken" -> Slot(KeysMfa)
                [] q.op = "AddUser" -> Len(s.us) + 1
                [] OTHER -> 0

FreshOf(q) ==
  LET k == SlotFor(q)
  IN  [id |-> k, pf |-> k, d |-> 0, x |-> 0, cm |-> 0, ds |-> [j \in 1..9 |-> 0], ut |-> 0, ct |-> 0, dt |-> 0,
       h |-> IF q.op = "AddAPIKey" THEN 1000 + k ELSE IF q.op \in {"AddUser", "ChangeUserPassword"} THEN q.a.pw ELSE 0]

Fits(q) == SlotFor(q) <= Slots \/ SlotFor(q) > 100 \/ q.op = "AddUser"

Refused(q) == Reasons(s, Sec, q.op, q.a) \cup If(q.fault /\ q.op \in Writes, "fault")

Index(a) == Who(Bound(s, a))

Init == s = Empty /\ cur = << >> /\ past = << >> /\ live = {} /\ live2 = {}

Edge(q, ok, t) ==
  PrintT("EDGE " \o ToJson([from |-> s, to |-> t, op |-> q.op, a |-> q.a, fault |-> q.fault, ok |-> ok,
                            slot |-> IF ok THEN SlotFor(q) ELSE 0]))

Step(q) ==
  /\ Allowed(q) /\ Fits(q)
  /\ IF Refused(q) # {}
     THEN UNCHANGED vars /\ Edge(q, FALSE, s)
     ELSE LET e == Effect(s, q.op, q.a, FreshOf(q))
              t == Zero(e)
              u == Index(q.a)
          IN /\ Assert(e.rv = s.rv + (IF q.op \in Writes THEN 1 ELSE 0), "revision")
             /\ s' = t
             /\ cur' = CASE q.op = "AddUser" -> Append(cur, q.a.pw)
                         [] q.op = "ChangeUserPassword" -> [cur EXCEPT ![u] = q.a.pw]
                         [] OTHER -> cur
             /\ past' = CASE q.op = "AddUser" -> Append(past, << >>)
                          [] q.op = "ChangeUserPassword" -> [past EXCEPT ![u] = SubSeq(<<cur[u]>> \o @, 1, Min({Len(@) + 1, KV}))]
                          [] OTHER -> past
             /\ live' = CASE q.op = "AddAPIKey" -> live \cup {<<SlotFor(q), u, q.a.dis>>}
                          [] q.op = "DeleteAPIKey" -> {k \in live : k[1] # q.a.id}
                          [] OTHER -> live
             /\ live2' = CASE q.op = "AddMfaToken" -> live2 \cup {<<SlotFor(q), u, q.a.ty, q.a.dis>>}
                           [] q.op = "DeleteMfaToken" -> {k \in live2 : k[1] # q.a.id}
                           [] OTHER -> live2
             /\ Edge(q, TRUE, t)

Next == \E q \in Pool : Step(q) \/ (q.op \in Writes /\ q.op # "Copy" /\ Refused(q) = {} /\ Step(Faulty(q)))

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the histories mean.                                                *)
(***************************************************************************)
Unique == UniqueUsers(s) /\ UniquePrefixes(s) /\ UniqueKeys(s) /\ UniqueTokens(s)

\* Exactly the password last set opens the door, and it does by every name.
LoginExact ==
  \A i \in DOMAIN s.us : \A p \in {X("password-1"), X("password-2"), X("PASSWORD-1"), X("password-3")} :
     \A l \in {s.us[i].un, s.us[i].em[1]} :
        (AuthReasons(s, Sec, [un |-> l, pw |-> p, wa |-> FALSE]) = {}) <=> (cur[i] = p)

\* The history has the passwords set before, most recent first.
HistoryExact ==
  \A i \in DOMAIN s.us :
     /\ [j \in 1..(Len(s.us[i].pw) - 1) |-> s.us[i].pw[j + 1].h] = past[i]
     /\ \A j \in 2..Len(s.us[i].pw) : s.us[i].pw[j].dis

\* Exactly the keys issued, enabled and not deleted are accepted, for their owners.
LookupExact ==
  \A k \in 1..Slots :
     LET a == [pl |-> X("key" \o ToString(k)), pf |-> k]
     IN  /\ (LookupReasons(s, Sec, a) = {}) <=> (\E t \in live : t[1] = k /\ ~t[3])
         /\ \A t \in live : t[1] = k /\ ~t[3] => KeyFound(s, Sec, a, Same) = {t[2]}
         /\ LookupReasons(s, Sec, [a EXCEPT !.pl = X("forged" \o ToString(k))]) # {}

\* The challenges and flags follow from the tokens registered and not deleted.
ChallengeExact ==
  \A i \in DOMAIN s.us :
     LET mine == {t \in live2 : t[2] = i /\ ~t[4]}
     IN  /\ Challenges(s.us[i]) = (IF mine = {} THEN <<"password">> ELSE <<"password", "mfa">>)
         /\ FlagsOf(s.us[i]) = <<mine # {}, \E t \in mine : t[3] = "totp", \E t \in mine : t[3] = "u2f">>

\* A step touches one user at most, the one both names designate.
Isolation ==
  [][ \/ Len(s'.us) > Len(s.us) /\ SubSeq(s'.us, 1, Len(s.us)) = s.us
      \/ /\ Len(s'.us) = Len(s.us)
         /\ Cardinality({i \in DOMAIN s.us : s.us[i] # s'.us[i]}) <= 1 ]_vars
=============================================================================
