------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of traces of the real library.  A trace is a sequence of     *)
(* records, one for each call, having the arguments, the results, and what *)
(* could be observed after the call: the state of the database in memory   *)
(* (when it differs from the one before) and the file.  Each record has to *)
(* be a step of the specification: from the state observed before the call *)
(* the specification has to allow the observed result, state, and file.    *)
(*                                                                         *)
(* Whatever it does not allow is printed as a DIFF, with the properties it *)
(* breaks; validation goes on from the observed state, so that the rest of *)
(* the trace is validated, too.                                            *)
(***************************************************************************)
EXTENDS Refusals

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* next record
          st,      \* state of the database, as observed
          sec,     \* hash -> text
          saved,   \* state last written to the file, or read from it
          disk,    \* the file, as observed
          aux      \* history of this database

vars == <<l, st, sec, saved, disk, aux>>

NoState == [us |-> << >>, rv |-> -1, lm |-> 0, pol |-> [kv |-> 0, pmin |-> 0, pmax |-> 0, umin |-> 0, umax |-> 0, x |-> 0], d |-> 0]
NoDisk  == [file |-> 0, ok |-> FALSE, d |-> 0, rv |-> 0, mode |-> 0]
NoAux   == [fails |-> 0, reloads |-> 0, ids |-> {}, keys |-> {}, pols |-> << >>, dead |-> FALSE]

Init == l = 1 /\ st = NoState /\ sec = << >> /\ saved = NoState /\ disk = NoDisk /\ aux = NoAux

PostOf(r) == IF Has(r, "post") THEN r.post ELSE st
DiskOf(r) == [file |-> r.file, ok |-> r.disk.ok, d |-> r.disk.d, rv |-> r.disk.rv, mode |-> r.mode]

(***************************************************************************)
(* The values a request does not determine, as the real library chose them.*)
(***************************************************************************)
NoPw == [h |-> 0, dis |-> FALSE, exp |-> FALSE, d |-> 0]
NoEl == [id |-> 0, idn |-> 0, pf |-> 0, h |-> 0, cm |-> 0, d |-> 0]
LastOf(q, e) == IF q = << >> THEN e ELSE q[Len(q)]
Within(r, t) == t >= r.t0 /\ t <= r.t1
Adopt(r, t)  == IF Within(r, t) THEN t ELSE -1     \* never equal to an observed time

Fresh(r, post) ==
  LET op == r.op
      none == [id |-> 0, h |-> 0, d |-> 0, x |-> 0, pf |-> 0, cm |-> 0, ds |-> << >>, ut |-> -1, ct |-> -1, dt |-> Adopt(r, post.lm)]
  IN CASE op = "AddUser" ->
            IF Len(post.us) = 0 THEN none
            ELSE LET u == post.us[Len(post.us)]
                     p == IF u.pw = << >> THEN NoPw ELSE u.pw[1]
                 IN [none EXCEPT !.id = u.id, !.h = p.h, !.d = p.d, !.x = u.x, !.ut = Adopt(r, u.lm), !.ct = Adopt(r, u.cr)]
       [] op \in UserWrites ->
            LET b == Bound(st, r.a)
            IN IF b = {} \/ Who(b) \notin DOMAIN post.us THEN none
               ELSE LET u == post.us[Who(b)]
                        f == [none EXCEPT !.ut = Adopt(r, u.lm)]
                        pre == st.us[Who(b)]
                    IN CASE op = "ChangeUserPassword" ->
                              LET p == IF u.pw = << >> THEN NoPw ELSE u.pw[1]
                              IN [f EXCEPT !.h = p.h, !.d = p.d,
                                           !.ds = [j \in 1..Len(pre.pw) |-> IF j + 1 \in DOMAIN u.pw THEN u.pw[j + 1].d ELSE 0]]
                         [] op = "AddAPIKey" ->
                              LET k == LastOf(u.ak, NoEl) IN [f EXCEPT !.id = k.id, !.pf = k.pf, !.h = k.h, !.d = k.d]
                         [] op = "AddPublicKey" ->
                              LET k == LastOf(u.pk, NoEl) IN [f EXCEPT !.id = k.id, !.cm = k.cm, !.d = k.d]
                         [] op = "AddMfaToken" ->
                              LET k == LastOf(u.mf, NoEl) IN [f EXCEPT !.id = k.id, !.d = k.d]
                         [] OTHER -> f
       [] OTHER -> none

(***************************************************************************)
(* Which properties an observation breaks.                                 *)
(***************************************************************************)
Listings == {"GetUsers", "GetAPIKeys", "GetPublicKeys", "GetMfaTokens", "GetUserCount", "GetUser"}
Binding  == UserWrites \cup {"GetUsers", "GetUser", "DeleteUser", "GetAPIKeys", "GetPublicKeys", "GetMfaTokens"}
Reading  == {"AuthenticateUser", "IdentifyUser", "GetUsers", "GetUser", "GetUserCount", "GetPath", "GetAPIKeys", "GetPublicKeys",
             "GetMfaTokens", "LookupAPIKey", "Policy", "Recheck"}

\* The request succeeded in spite of the reason.
OfReason(op, a, x) ==
  CASE x = "policy"   -> {"C14"} \cup Home(op)
    [] x = "utf8"     -> {"C10", "C20"}
    [] x = "blank"    -> {"C02", "C20"} \cup Home(op)
    [] x \in {"username", "email", "role", "name"} -> {"C18", "C20"}
    [] x = "taken"    -> {"C01"}
    [] x = "bind"     -> {"C04"} \cup Home(op)
    [] x = "old"      -> {"C03", "C02"}
    [] x \in {"duplicate", "id"} -> Home(op) \cup (IF x = "id" THEN {"C04"} ELSE {})
    [] x = "form"     -> {"C06", "C20", "C23"}
    [] x \in {"algorithm", "period", "digits", "code"} -> {"C07", "C08", "C20"}
    [] x \in {"registration", "challenge"} -> {"C07", "C09", "C20"}
    [] x \in {"usage", "comment", "type"} -> Home(op) \cup {"C20"}
    [] x = "unknown"  -> {"C02", "C22"}
    [] x = "password" -> {"C02", "C03"}
    [] x \in {"assertion", "malformed"} -> {"C09", "C02", "C20"}
    [] x = "key"      -> {"C05"}
    [] x = "target"   -> {"C10", "C11"}
    [] x = "fault"    -> {"C10", "C11", "C12"} \cup Home(op)
    [] x = "unsupported" -> {"C11"}
    [] OTHER          -> Home(op)

\* The request failed without a reason.
OfRefusal(op, a) ==
  Home(op) \cup
  (CASE op = "AddUser"            -> {"C01", "C14", "C18"}
     [] op = "ChangeUserPassword" -> {"C03", "C14", "C02"}
     [] op = "AuthenticateUser"   -> IF T(a.pw) # << >> THEN {"C02", "C03"} ELSE {"C09", "C02"}
     [] op = "AddMfaToken"        -> IF a.ty = "totp" THEN {"C07", "C08"} ELSE {"C07", "C09", "C20"}
     [] op = "AddPublicKey"       -> {"C06", "C23"}
     [] op \in Listings           -> {"C21", "C04"}
     [] op \in {"Save", "Copy", "Reload", "Open"} -> {"C10", "C15"}
     [] OTHER                     -> {})
  \cup (IF op \in Binding THEN {"C04"} ELSE {})

\* A part of the state is not as it has to be.
OfPart(part, op) ==
  CASE part = "pw"  -> {"C03", "C02"}
    [] part = "pk"  -> {"C06"}
    [] part = "ak"  -> {"C05"}
    [] part = "mf"  -> {"C07"}
    [] part \in {"id", "idn"} -> {"C01", "C24"}
    [] part \in {"un", "em"}  -> {"C01", "C18"}
    [] part \in {"nm", "nn", "rl", "x"} -> {"C18"}
    [] part \in {"rv", "lm", "cr", "dbrv", "dblm"} -> {"C17"}
    [] part = "pol" -> {"C14"}
    [] part = "us"  -> {"C01", "C21"}
    [] part = "d"   -> {"C10", "C11"}

(***************************************************************************)
(* Comparison of states.                                                   *)
(***************************************************************************)
UserParts == {"id", "idn", "un", "em", "nm", "nn", "rl", "pw", "pk", "ak", "mf", "rv", "lm", "cr", "x"}
\* <<part, user>> of the differences; user 0 is the database.
StateDiffs(e, p) ==
  IF e.us = p.us /\ e.rv = p.rv /\ e.lm = p.lm /\ e.pol = p.pol THEN {}
  ELSE If(Len(e.us) # Len(p.us), <<"us", 0>>)
       \cup If(e.rv # p.rv, <<"dbrv", 0>>)
       \cup If(e.lm # p.lm, <<"dblm", 0>>)
       \cup If(e.pol # p.pol, <<"pol", 0>>)
       \cup {q \in UserParts \X (1..Min({Len(e.us), Len(p.us)})) : e.us[q[2]][q[1]] # p.us[q[2]][q[1]]}

\* Differences of the state in memory.
MemoryDiffs(r, exp, post, ok, failing) ==
  LET ds == StateDiffs(exp, post)
      b  == IF r.op \in Binding THEN Bound(st, r.a) ELSE {}
      extra == IF ds = {} /\ exp = st /\ Has(r, "post") /\ st.d # post.d /\ r.op # "Open"
               THEN {D("state:d", "unchanged parts, changed digest", {"C10", "C11"})} ELSE {}
  IN  extra \cup
      {D("state:" \o q[1], IF q[2] \in b THEN "target" ELSE IF q[2] = 0 THEN "db" ELSE "other",
         OfPart(q[1], r.op)
         \cup (IF q[2] # 0 /\ q[2] \notin b /\ q[2] \in DOMAIN st.us THEN {"C04"} ELSE {})
         \cup (IF failing /\ ~(r.op \in Reading) THEN {"C11", "C20"} ELSE {})
         \cup (IF r.op \in Reading THEN {"C21"} ELSE {})
         \cup (IF r.op \in {"Reload", "Copy"} THEN {"C10"} ELSE {})
         \cup (IF q[1] \in {"pw", "pk", "ak", "mf", "nm", "rl", "em", "un"} THEN Home(r.op) ELSE {})) : q \in ds}

\* Differences of the file.
DiskDiffs(r, post, wrote) ==
  LET n == DiskOf(r)
      mode0 == IF r.op = "Copy" /\ r.a.pre = "stale" THEN 0 ELSE disk.mode   \* the file was gone
  IN  IF wrote
      THEN If(~n.ok, D("file", "does not load after success", {"C10", "C12"} \cup Home(r.op)))
           \cup If(n.ok /\ n.d # post.d, D("file", "is not the state in memory", {"C10"} \cup Home(r.op)))
           \cup If(n.ok /\ n.rv # post.rv, D("file", "has another revision", {"C10", "C17"}))
           \cup If(mode0 # 0 /\ n.mode # mode0, D("file", "permissions changed", {"C16"}))
           \cup If(mode0 = 0 /\ n.mode # 384, D("file", "created with other permissions than 0600", {"C16"}))
      ELSE If(n.file # disk.file, D("file", "changed",
                (IF r.op \in Reading THEN {"C21"} ELSE IF r.op = "Reload" THEN {"C15", "C10"} ELSE {"C11"})
                \cup (IF r.op = "Copy" THEN {"C10"} ELSE {})))
           \cup If(n.mode # disk.mode, D("file", "permissions changed without a write", {"C16"}))

(***************************************************************************)
(* New values have to be new, and well-formed.                             *)
(***************************************************************************)
FreshDiffs(r, f, post) ==
  LET op == r.op
  IN  (IF op \in {"AddUser", "AddAPIKey", "AddMfaToken"} /\ f.id # 0
       THEN If(f.id \in aux.ids, D("fresh", "identifier repeats", {"C24", "C01"} \cup Home(op))) ELSE {})
      \cup
      (IF op \in {"AddUser", "ChangeUserPassword", "AddAPIKey"} /\ f.h # 0
       THEN If(f.h \in DOMAIN sec, D("fresh", "hash repeats", {"C16", "C24"} \cup Home(op)))
            \cup If(~r.r.hv, D("fresh", "hash is not of the secret", {"C02", "C16"} \cup Home(op)))
       ELSE {})
      \cup
      (IF op = "AddAPIKey"
       THEN If(r.r.key = 0 \/ r.r.kn < 72 \/ r.r.kn > 95 \/ ~r.r.alnum, D("fresh", "malformed api key", {"C24", "C05"}))
            \cup If(r.r.pf # f.pf, D("fresh", "prefix is not of the key", {"C24", "C05", "C01"}))
            \cup If(r.r.key \in aux.keys, D("fresh", "api key repeats", {"C24", "C05"}))
       ELSE {})

(***************************************************************************)
(* One record.                                                             *)
(***************************************************************************)
Known(id) == D("known:" \o id, "", {"KNOWN"})

OwnPath == {"self", "stale"}

RecordDiffs(r) ==
  LET op   == r.op
      a    == r.a
      q    == r.r
      post == PostOf(r)
      base == Reasons(st, sec, op, a)
      rs   == base \cup If(r.fault /\ op \in Writes /\ op # "Copy", "fault")
      f    == Fresh(r, post)
      amb  == Has(a, "amb") /\ a.amb
      \* a copy to its own path is a write
      wrote == q.ok /\ op \in Writes /\ (op = "Copy" => a.pre \in OwnPath)
      exp  == IF op = "Reload" THEN (IF q.ok THEN saved ELSE st)
              ELSE IF q.ok /\ rs = {} THEN Effect(st, op, a, f)
              ELSE st
      \* bcrypt does not see these differences
      knownPw == q.ok /\ rs = {"password"} /\ op = "AuthenticateUser"
                 /\ CollidingPassword(sec, st.us[Who(ByLogin(st, a.un))], a.pw)
      knownOld == q.ok /\ rs = {"old"} /\ CollidingPassword(sec, st.us[Who(Bound(st, a))], a.old)
      knownKey == q.ok /\ rs = {"key"} /\ KeyFound(st, sec, a, SameKey) # {}
      exp2 == IF knownOld THEN Effect(st, op, a, f) ELSE exp
      known == knownPw \/ knownOld \/ knownKey
  IN  If(q.panic, D("panic", r.err, {"C20", "C13"} \cup Home(op) \cup (IF op = "Reload" THEN {"C15"} ELSE {})))
      \cup If(q.hang, D("hang", "", {"C13", "C20"} \cup Home(op)))
      \cup (IF q.hang THEN {}
            ELSE
            (IF knownPw \/ knownOld THEN {Known("C02-bcrypt")} ELSE IF knownKey THEN {Known("C05-bcrypt")} ELSE {})
            \cup (IF q.ok /\ rs # {} /\ ~known /\ ~(amb /\ rs = {"code"})
                  THEN {D("accept", ToString(rs), UNION {OfReason(op, a, x) : x \in rs})} ELSE {})
            \* a failure below the operation may or may not fail it
            \cup (IF ~q.ok /\ rs = {} /\ ~amb /\ ~q.panic /\ ~r.may
                  THEN {D("refuse", r.err, OfRefusal(op, a) \cup (IF r.retry THEN {"C11"} ELSE {}))} ELSE {})
            \cup (IF q.ok /\ rs # {} /\ ~known THEN {} ELSE MemoryDiffs(r, exp2, post, ~q.ok, ~q.ok))
            \cup (IF q.ok /\ rs # {} /\ ~known /\ op \notin Writes THEN MemoryDiffs(r, st, post, TRUE, FALSE) ELSE {})
            \cup DiskDiffs(r, post, wrote)
            \cup (IF q.ok /\ rs = {} THEN FreshDiffs(r, f, post) ELSE {})
            \cup ResultDiffs(st, sec, aux.pols, r, rs, post)
            \cup RefusalDiffs(st, sec, r, rs)
            \cup If(r.leak # 0, D("leak", ToString(r.leak), {"C16"}))
            \cup If(~UniqueUsers(post), D("inv", "users are not unique", {"C01"}))
            \cup If(~UniquePrefixes(post), D("inv", "api key prefixes are not unique", {"C01", "C24"}))
            \cup If(~UniqueKeys(post) /\ UniqueKeys(st), D("inv", "public keys are not unique", {"C06"}))
            \cup If(~UniqueTokens(post) /\ UniqueTokens(st), D("inv", "tokens are not unique", {"C07"})))

\* Deviations after a failure may be its consequences, and so may be
\* those after a reload.
Widen(d) == IF "KNOWN" \in d.owners \/ d.what = "refusal" THEN d
            ELSE [d EXCEPT !.owners = @ \cup (IF aux.fails > 0 THEN {"C11"} ELSE {}) \cup (IF aux.reloads > 0 THEN {"C10"} ELSE {})]

Report(r, ds) ==
  \A d \in ds : PrintT("DIFF " \o ToJson([i |-> r.i, ep |-> r.ep, l |-> l, op |-> r.op, what |-> d.what, detail |-> d.detail, owners |-> Widen(d).owners]))

NewSecrets(r, post) ==
  LET f == Fresh(r, post)
      txt == CASE r.op \in {"AddUser", "ChangeUserPassword"} -> r.a.pw
               [] r.op = "AddAPIKey" -> r.r.key
               [] OTHER -> 0
  IN IF r.r.ok /\ txt # 0 /\ f.h # 0 /\ f.h \notin DOMAIN sec THEN sec @@ (f.h :> txt) ELSE sec

IdsOf(s) == UNION {{u.id} \cup {u.ak[j].id : j \in DOMAIN u.ak} \cup {u.mf[j].id : j \in DOMAIN u.mf} : u \in ToSet(s.us)}

Step ==
  /\ l <= Len(Log)
  /\ LET r == Log[l]
         post == PostOf(r)
     IN IF r.op = "Open"
        THEN /\ st' = IF Has(r, "post") THEN r.post ELSE NoState
             /\ saved' = IF Has(r, "post") THEN r.post ELSE NoState
             /\ sec' = FoldLeft(LAMBDA acc, p : acc @@ (p[1] :> p[2]), << >>, r.sec)
             /\ disk' = DiskOf(r)
             /\ aux' = [NoAux EXCEPT !.ids = IF Has(r, "post") THEN IdsOf(r.post) ELSE {}]
             /\ Report(r, If(~r.r.ok, D("open", r.err, {"C10", "C15"}))
                          \cup If(~r.a.fx /\ r.mode # 384, D("file", "created with other permissions than 0600", {"C16"}))
                          \cup If(r.r.ok /\ (~r.disk.ok \/ r.disk.d # r.post.d), D("file", "is not the state in memory", {"C10", "C15"})))
        ELSE LET ds == TLCEval(RecordDiffs(r))
                 n  == DiskOf(r)
             IN /\ Report(r, ds)
                /\ st' = post
                /\ saved' = IF r.op = "Reload" THEN (IF r.r.ok THEN post ELSE saved)
                            ELSE IF n.file # disk.file /\ n.d = post.d THEN post ELSE saved
                /\ sec' = NewSecrets(r, post)
                /\ disk' = n
                /\ aux' = [aux EXCEPT !.fails = @ + (IF r.r.ok \/ r.op \in Reading THEN 0 ELSE 1),
                                      !.reloads = @ + (IF r.op = "Reload" THEN 1 ELSE 0),
                                      !.ids = IF post = st THEN @ ELSE @ \cup IdsOf(post),
                                      !.keys = IF r.op = "AddAPIKey" THEN @ \cup {r.r.key} ELSE @,
                                      !.pols = IF r.op = "Policy" THEN PolicyTexts(r.r) ELSE @]
  /\ l' = l + 1

Next == Step
Spec == Init /\ [][Next]_vars
View == l

Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
