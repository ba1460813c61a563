------------------------------ MODULE Hashing -------------------------------
(***************************************************************************)
(* What is hashed, and at what cost (at the real one): stored secrets, and *)
(* the work done for logins of known and unknown users.                    *)
(***************************************************************************)
EXTENDS Table

Known   == {"name", "NAME", "mail", "Mail"}
Unknown == {"other", "other mail", "", "short", "at", "blank before", "blank after", "long", "bytes", "deleted"}
Wrong   == {"other", "blank", "spaces", "tab", "newline", "one", "71", "72", "73", "100", "5000", "nul", "bytes", "upper", "right and more", "less", "nbsp", "hash", "quote"}

Cases ==
  {[known |-> k, unknown |-> "other", pw |-> p] : k \in {"name"}, p \in Wrong}
  \cup {[known |-> "name", unknown |-> u, pw |-> p] : u \in Unknown, p \in {"other", "blank"}}
  \cup {[known |-> k, unknown |-> "other mail", pw |-> p] : k \in Known, p \in {"other", "73"}}
ASSUME CasesOut(SetToSeq(Cases))

Cost == 10
\* The work is the sequence of costs of the hashes computed.
Login(r) ==
  LET s == r.known \o " and " \o r.unknown \o " with password " \o r.pw \o ": "
  IN  If(r.ok1 \/ r.ok2, D("login", s \o "accepted", {"C02", "C22"}))
      \cup If(r.code1 # r.code2, D("code", s \o ToString(r.code1) \o " and " \o ToString(r.code2), {"C22"}))
      \cup If(r.work1 # r.work2, D("hashes", s \o ToString(r.work1) \o " and " \o ToString(r.work2), {"C22"}))

Stored(r) ==
  If(\E i \in DOMAIN r.costs : r.costs[i] < Cost, D("stored", r.what \o ": cost " \o ToString(r.costs), {"C16"}))
  \cup If(Cardinality(ToSet(r.salts)) # Len(r.salts), D("stored", r.what \o ": salts repeat", {"C16"}))
  \cup If(\E i \in DOMAIN r.match : ~r.match[i], D("stored", r.what \o ": not a hash of the secret", {"C16", "C02", "C05"}))
  \cup If(Len(r.costs) # r.n, D("stored", r.what \o ": " \o ToString(Len(r.costs)) \o " hashes", {"C16"}))
  \cup If(r.leaks # 0, D("leak", r.what, {"C16"}))

Judge(r) ==
  IF r.panic THEN {D("panic", r.err, {"C16", "C20", "C22"})}
  ELSE IF r.k = "login" THEN Login(r) ELSE Stored(r)

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
