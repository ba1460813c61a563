-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* The file format: which documents are a database, and which database     *)
(* each one is.  A document is a tree of nodes [t |-> tag, ...], tagged    *)
(* "z" (null), "s" (string: v, its length in bytes n and, for usernames    *)
(* and email addresses, its code points c), "b" (v), "n" (number: its text *)
(* v, whether it is an integer, its sign and its length in bits), "l"      *)
(* (list: e) and "o" (object: m, by name).  A database is a tree of the    *)
(* same kind, with the names of the fields of the library's types.         *)
(***************************************************************************)
EXTENDS Table

\* ------------------------------------------------------------- the schema
Str         == [k |-> "str", d |-> ""]
StrElse(d)  == [k |-> "str", d |-> d]
Bool        == [k |-> "bool"]
Whole       == [k |-> "int", d |-> "0", neg |-> TRUE, bits |-> 63]
WholeElse(d)  == [k |-> "int", d |-> d, neg |-> TRUE, bits |-> 63]
UInt(b)     == [k |-> "int", d |-> "0", neg |-> FALSE, bits |-> b]
Time        == [k |-> "time"]
MapOf(t)    == [k |-> "map", of |-> t]
ListOf(t)   == [k |-> "list", of |-> t]
Obj(fs)     == [k |-> "obj", f |-> fs]        \* always there
Opt(fs)     == [k |-> "opt", f |-> fs]        \* there or not
F(j, g, t)  == [j |-> j, g |-> g, t |-> t]

States == <<F("expired", "Expired", Bool), F("expired_at", "ExpiredAt", Time), F("created_at", "CreatedAt", Time), F("disabled", "Disabled", Bool), F("disabled_at", "DisabledAt", Time)>>
Name   == <<F("first", "First", Str), F("last", "Last", Str), F("middle", "Middle", Str), F("preferred", "Preferred", Str), F("nickname", "Nickname", Bool),
            F("confirmed", "Confirmed", Bool), F("primary", "Primary", Bool), F("legal", "Legal", Bool), F("alias", "Alias", Bool)>>
Org    == <<F("id", "ID", UInt(64)), F("name", "Name", Str), F("aliases", "Aliases", ListOf(Str))>>
Place  == <<F("street", "Street", Str), F("city", "City", Str), F("state", "State", Str), F("zip_code", "ZipCode", Str), F("confirmed", "Confirmed", Bool), F("current", "Current", Bool),
            F("domicile", "Domicile", Bool), F("residential", "Residential", Bool), F("commercial", "Commercial", Bool)>>
Mail   == <<F("address", "Address", Str), F("confirmed", "Confirmed", Bool), F("domain", "Domain", Str)>>
Passwd == <<F("purpose", "Purpose", Str), F("algorithm", "Algorithm", StrElse("bcrypt")), F("hash", "Hash", Str), F("cost", "Cost", Whole)>> \o States
PubKey == <<F("id", "ID", Str), F("usage", "Usage", Str), F("type", "Type", Str), F("fingerprint", "Fingerprint", Str), F("fingerprint_md5", "FingerprintMD5", Str),
            F("comment", "Comment", Str), F("payload", "Payload", Str), F("openssh", "OpenSSH", Str)>> \o States
ApiKey == <<F("id", "ID", Str), F("prefix", "Prefix", Str), F("usage", "Usage", Str), F("comment", "Comment", Str), F("payload", "Payload", Str)>> \o States
Dev    == <<F("name", "Name", Str), F("vendor", "Vendor", Str), F("type", "Type", Str)>>
Token  == <<F("id", "ID", Str), F("type", "Type", Str), F("algorithm", "Algorithm", Str), F("comment", "Comment", Str), F("secret", "Secret", Str), F("period", "Period", Whole),
            F("digits", "Digits", Whole), F("device", "Device", Opt(Dev)), F("parameters", "Parameters", MapOf(Str)), F("flags", "Flags", MapOf(Bool)),
            F("signature_counter", "SignatureCounter", UInt(32))>> \o States
RoleF  == <<F("name", "Name", Str), F("organization", "Organization", Str)>>
Lock   == <<F("enabled", "Enabled", Bool), F("start_time", "StartTime", Time), F("end_time", "EndTime", Time)>>
Pic    == <<F("title", "Title", Str), F("body", "Body", Str), F("path", "Path", Str)>>
Usr    == <<F("id", "ID", Str), F("enabled", "Enabled", Bool), F("human", "Human", Bool), F("username", "Username", Str), F("title", "Title", Str), F("name", "Name", Opt(Name)),
            F("organization", "Organization", Opt(Org)), F("names", "Names", ListOf(Opt(Name))), F("organizations", "Organizations", ListOf(Opt(Org))),
            F("street_address", "StreetAddress", ListOf(Opt(Place))), F("email_address", "EmailAddress", Opt(Mail)), F("email_addresses", "EmailAddresses", ListOf(Opt(Mail))),
            F("passwords", "Passwords", ListOf(Opt(Passwd))), F("public_keys", "PublicKeys", ListOf(Opt(PubKey))), F("api_keys", "APIKeys", ListOf(Opt(ApiKey))),
            F("mfa_tokens", "MfaTokens", ListOf(Opt(Token))), F("lockout", "Lockout", Opt(Lock)), F("avatar", "Avatar", Opt(Pic)), F("created", "Created", Time),
            F("last_modified", "LastModified", Time), F("revision", "Revision", Whole), F("roles", "Roles", ListOf(Opt(RoleF)))>>
PwPol  == <<F("keep_versions", "KeepVersions", WholeElse("10")), F("min_length", "MinLength", WholeElse("8")), F("max_length", "MaxLength", WholeElse("128")),
            F("require_uppercase", "RequireUppercase", Bool), F("require_lowercase", "RequireLowercase", Bool), F("require_number", "RequireNumber", Bool),
            F("require_non_alpha_numeric", "RequireNonAlphaNumeric", Bool), F("block_reuse", "BlockReuse", Bool), F("block_password_change", "BlockPasswordChange", Bool)>>
UsPol  == <<F("min_length", "MinLength", WholeElse("3")), F("max_length", "MaxLength", WholeElse("50")), F("allow_non_alpha_numeric", "AllowNonAlphaNumeric", Bool),
            F("allow_uppercase", "AllowUppercase", Bool)>>
Db     == Obj(<<F("version", "Version", Str), F("policy", "Policy", Obj(<<F("password", "Password", Obj(PwPol)), F("user", "User", Obj(UsPol))>>)), F("revision", "Revision", UInt(64)),
                F("last_modified", "LastModified", Time), F("users", "Users", ListOf(Opt(Usr)))>>)

Plain == {"0001-01-01T00:00:00Z", "2021-08-21T10:11:12.123456789Z", "2031-01-02T03:04:05Z", "2131-01-02T03:04:05Z", "1999-12-31T23:59:59Z", "2020-02-29T23:59:59Z"}
\* Times by their texts, those of other zones too, to the same in UTC.
Times == [t \in Plain |-> t]
         @@ "2023-11-05T01:30:00.5+05:30" :> "2023-11-04T20:00:00.5Z"
         @@ "2019-01-01T00:00:00.000000001-11:00" :> "2019-01-01T11:00:00.000000001Z"

\* ------------------------------------------------------------------- shape
Null    == [t |-> "z"]
Of(o, j) == IF j \in DOMAIN o.m THEN o.m[j] ELSE Null

RECURSIVE Fits(_, _)
Fits(n, t) ==
  \/ n.t = "z"
  \/ t.k = "str"  /\ n.t = "s"
  \/ t.k = "bool" /\ n.t = "b"
  \/ t.k = "int"  /\ n.t = "n" /\ n.int /\ n.bits <= t.bits /\ (n.neg => t.neg)
  \/ t.k = "time" /\ n.t = "s" /\ n.v \in DOMAIN Times
  \/ t.k = "list" /\ n.t = "l" /\ \A i \in 1..Len(n.e) : Fits(n.e[i], t.of)
  \/ t.k = "map"  /\ n.t = "o" /\ \A j \in DOMAIN n.m : Fits(n.m[j], t.of)
  \/ t.k \in {"obj", "opt"} /\ n.t = "o" /\ \A i \in 1..Len(t.f) : Fits(Of(n, t.f[i].j), t.f[i].t)

\* Lists of a document of the right shape; objects without the member, or with
\* null, have the empty list.
List(o, j) == IF o.t = "o" /\ Of(o, j).t = "l" THEN Of(o, j).e ELSE << >>
Val(o, j)  == IF Of(o, j).t = "s" THEN Of(o, j).v ELSE ""
Lower(o, j) == IF Of(o, j).t = "s" THEN LowerT(Of(o, j).c) ELSE << >>
Lists == {"names", "organizations", "street_address", "email_addresses", "passwords", "public_keys", "api_keys", "mfa_tokens", "roles"}

Flat(us, j)   == FoldLeft(LAMBDA a, u : a \o List(u, j), << >>, us)
Differ(s)     == Cardinality(ToSet(s)) = Len(s)
NoNull(s)     == \A i \in 1..Len(s) : s[i].t # "z"

\* What is wrong with a document of the right shape.
Wrong(doc) ==
  LET us == List(doc, "users")
  IN  IF ~NoNull(us) THEN {"null user"}
      ELSE IF ~\A i \in 1..Len(us) : \A j \in Lists : NoNull(List(us[i], j)) THEN {"null entry"}
      ELSE If(\E i \in 1..Len(us) : Of(us[i], "id").t # "s" \/ Of(us[i], "id").n # 36, "id")
           \cup If(\E i \in 1..Len(us) : Val(us[i], "username") = "", "username")
           \cup If(\E i \in 1..Len(us) : List(us[i], "passwords") = << >>, "no password")
           \cup If(~Differ([i \in 1..Len(us) |-> Val(us[i], "id")]), "two users with one id")
           \cup If(~Differ([i \in 1..Len(us) |-> Lower(us[i], "username")]), "two users with one username")
           \cup If(LET es == Flat(us, "email_addresses") IN ~Differ([i \in 1..Len(es) |-> Lower(es[i], "address")]), "two equal email addresses")
           \cup If(LET ks == Flat(us, "api_keys") IN ~Differ([i \in 1..Len(ks) |-> Val(ks[i], "prefix")]), "two API keys with one prefix")

\* --------------------------------------------------------------- what it is
RECURSIVE Differs(_, _, _, _)
\* Where a node of the document and one of the database differ: a set of paths.
Differs(n, t, g, path) ==
  CASE t.k = "str"  -> If(~(g.t = "s" /\ g.v = (IF n.t = "z" \/ n.v = "" THEN t.d ELSE n.v)), path)
    [] t.k = "bool" -> If(~(g.t = "b" /\ g.v = (IF n.t = "z" THEN FALSE ELSE n.v)), path)
    [] t.k = "int"  -> If(~(g.t = "n" /\ g.v = (IF n.t = "z" \/ n.v = "0" THEN t.d ELSE n.v)), path)
    [] t.k = "time" -> If(~(g.t = "s" /\ g.v = (IF n.t = "z" THEN "0001-01-01T00:00:00Z" ELSE Times[n.v])), path)
    [] t.k = "list" ->
         LET e == IF n.t = "z" THEN << >> ELSE n.e
         IN  IF g.t # "l" \/ Len(g.e) # Len(e) THEN {path \o " (length)"}
             ELSE UNION {Differs(e[i], t.of, g.e[i], path \o "[" \o ToString(i) \o "]") : i \in 1..Len(e)}
    [] t.k = "map"  ->
         LET d == IF n.t = "z" THEN {} ELSE DOMAIN n.m
         IN  IF g.t # "o" \/ DOMAIN g.m # d THEN {path \o " (keys)"}
             ELSE UNION {Differs(n.m[j], t.of, g.m[j], path \o "." \o j) : j \in d}
    [] t.k = "opt" /\ n.t = "z" -> If(g.t # "z", path)
    [] OTHER ->
         IF g.t # "o" THEN {path}
         ELSE UNION {Differs(IF n.t = "z" THEN Null ELSE Of(n, t.f[i].j), t.f[i].t, IF t.f[i].g \in DOMAIN g.m THEN g.m[t.f[i].g] ELSE Null, path \o "." \o t.f[i].g) : i \in 1..Len(t.f)}

\* The version in the file is of no importance.
DbSansVersion == [Db EXCEPT !.f = Tail(Db.f)]

\* Missing limits are filled in and written, as a new revision.
Limit(doc, o, j) == LET p == IF Of(doc, "policy").t = "o" THEN Of(Of(doc, "policy"), o) ELSE Null
                        n == IF p.t = "o" THEN Of(p, j) ELSE Null
                    IN  n.t = "n" /\ n.v # "0"
Filled(doc) == \E x \in {"password", "user"} \X {"min_length", "max_length", "keep_versions"} : x # <<"user", "keep_versions">> /\ ~Limit(doc, x[1], x[2])

Doubles == {"two users with one id", "two users with one username", "two equal email addresses", "two API keys with one prefix"}

ASSUME CasesOut(<< >>)

\* What a refusal says, as far as the document is wrong in that way. With a
\* null somewhere, nothing else is known to be wrong.
Kinds ==
  [user     |-> {"null user", "null entry", "id", "username", "no password"},
   username |-> {"two users with one username"},
   id       |-> {"two users with one id"},
   email    |-> {"two equal email addresses"},
   prefix   |-> {"two API keys with one prefix"}]
Details == [k \in {"null user", "null entry", "id length", "username", "no password"} |-> IF k = "id length" THEN "id" ELSE k]
Known == DOMAIN Kinds \cup {"any"}
Misnamed(r, wrong) ==
  IF r.kind \notin Known THEN D("refusal", "not recognisable: " \o r.err, {"C26"})
  ELSE IF wrong \cap {"null user", "null entry"} # {} THEN D("", "", {})
  ELSE IF r.kind # "any" /\ Kinds[r.kind] \cap wrong = {} THEN D("refusal", r.kind \o " does not apply: " \o r.err, {"C26"})
  ELSE LET said == ToSet(r.says) \cap DOMAIN Details
       IN  IF r.kind = "user" /\ ~(\A k \in said : Details[k] \in wrong) THEN D("refusal", ToString(said) \o " does not apply: " \o r.err, {"C26"})
           ELSE D("", "", {})

Judge(r) ==
  LET shaped == r.json /\ r.doc.t = "o" /\ Fits(r.doc, Db)
      wrong  == IF shaped THEN Wrong(r.doc) ELSE {"shape"}
      why    == r.what \o ": " \o (IF wrong = {} THEN "valid" ELSE ToString(wrong))
      s      == r.what
  IN  IF r.panic THEN {D("panic", s \o " " \o r.err, {"C15", "C20"})}
      ELSE If(wrong = {} /\ ~r.ok, D("load", "refused, " \o why \o " " \o r.err, {"C15", "C10"}))
           \cup If(wrong # {} /\ r.ok, D("load", "accepted, " \o why, {"C15"} \cup If(wrong \cap Doubles # {}, "C01")))
           \cup (IF r.ok \/ wrong = {} THEN {} ELSE {Misnamed(r, wrong)} \ {D("", "", {})})
           \cup If(~r.ok /\ ~r.same, D("load", "refused, but changed the file: " \o s, {"C15", "C11"}))
           \cup (IF r.ok /\ wrong = {}
                 THEN LET ds == Differs(r.doc, DbSansVersion, r.db, "") \ (IF Filled(r.doc) THEN {".Revision", ".LastModified"} ELSE {})
                      IN  If(ds # {}, D("load", "other values: " \o s \o ToString(ds), {"C15", "C10", "C14"}))
                           \cup If(~Filled(r.doc) /\ ~r.same, D("load", "changed the file: " \o s, {"C15", "C21"}))
                           \cup If(~r.again, D("load", "another database when loaded again: " \o s, {"C15", "C10"}))
                           \cup If(r.sweep # "", D("panic", "operations on " \o s \o ": " \o r.sweep, {"C15", "C20"}))
                 ELSE {})

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
