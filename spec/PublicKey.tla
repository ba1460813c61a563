----------------------------- MODULE PublicKey ------------------------------
(***************************************************************************)
(* Public keys: which ones are accepted, in which form, and what is stored *)
(* of them.  The truth about a key (r.truth) are the values ssh-keygen and *)
(* gpg state for it, or the ones computed from its numbers by their        *)
(* definition.                                                             *)
(***************************************************************************)
EXTENDS Table

KeyKinds == {"rsa", "dsa", "ecdsa", "ed25519", "pgp", "pgptwo"}
PemForms == {"pem", "pem surrounded", "pem CRLF", "pem no final newline", "pem indented", "pem blanks after", "pem CRLF around"}
SshForms == {"ssh", "ssh comment", "ssh words", "ssh mentions RSA", "ssh mentions PGP", "ssh spaces", "ssh surrounded", "ssh newline", "ssh tab"}
PgpForms == {"pgp", "pgp surrounded", "pgp indented"}
BadForms == {"empty", "blank", "junk", "pkcs1", "pkix", "bare", "ssh type only", "ssh other type", "ssh cut", "ssh bad base64", "ssh trailing bytes", "ssh url alphabet", "ssh of other kind", "pem cut", "pem no end", "pem no begin",
             "pem private label", "pem bad base64", "pem empty", "pem trailing bytes", "pem other kind", "pgp cut", "pgp no end", "pgp no begin", "pgp private label", "pgp empty", "pgp junk before", "pgp junk after"}
Usages   == {"ssh", "gpg", "", "SSH", "ssh ", "api", "pgp"}
Comments == {"", "mine", "two words", "RSA PUBLIC KEY"}

Cases ==
  {[key |-> k, form |-> f, usage |-> u, comment |-> c] :
     k \in 1..13, f \in PemForms \cup SshForms \cup PgpForms \cup BadForms, u \in Usages, c \in {"", "mine"}}
  \cup {[key |-> k, form |-> f, usage |-> u, comment |-> c] : k \in 1..13, f \in PemForms \cup SshForms \cup PgpForms, u \in {"ssh", "gpg"}, c \in Comments}

ASSUME CasesOut(SetToSeq(Cases))

\* A PGP key has to be of a kind the library knows.
PgpAlgo == [n \in {1, 2, 3, 17, 18, 19} |-> CASE n \in 1..3 -> <<"RSA", "rsa">> [] n = 17 -> <<"DSA", "dsa">> [] n = 18 -> <<"ECDH", "ecdh">> [] n = 19 -> <<"ECDSA", "ecdsa">>]

Accept(r) ==
  \/ r.form \in PemForms \cup SshForms /\ r.kind = "rsa" /\ r.usage = "ssh"
  \/ r.form \in PgpForms /\ r.kind = "pgp" /\ r.truth.algo \in DOMAIN PgpAlgo /\ r.usage = "gpg"

\* The comment of an OpenSSH key takes precedence.
Comment(r) ==
  IF r.form \in PgpForms
  THEN LET own == r.truth.uid \o ", algo " \o PgpAlgo[r.truth.algo][1] \o ", created " \o r.truth.created
       IN  IF r.comment = "" THEN own ELSE r.comment \o " (" \o own \o ")"
  ELSE IF r.own # "" THEN r.own ELSE r.comment

\* The label of the fingerprint is not a part of it.
Ssh(r)  == LET k == r.key IN
  If(k.type # "ssh-rsa", "type " \o k.type)
  \cup If(k.sha256 # r.truth.sha256, "fingerprint " \o k.sha256)
  \cup If(k.md5 # r.truth.md5, "MD5 fingerprint " \o k.md5)
  \cup If(k.ssh # r.truth.ssh, "OpenSSH form " \o k.ssh)
  \cup If(k.der # r.truth.der, "payload")
  \cup If(k.label # "RSA PUBLIC KEY", "label of the payload " \o k.label)
  \cup If(~k.fresh, "id")
Pgp(r)  == LET k == r.key IN
  If(k.type # PgpAlgo[r.truth.algo][2], "type " \o k.type)
  \cup If(k.sha256 # r.truth.fpr, "fingerprint " \o k.sha256)
  \cup If(k.id # r.truth.keyid, "id " \o k.id)
  \cup If(~k.whole, "payload")

\* The reasons that apply to what is refused, as far as they are known for what is damaged.
Malformed == {"key parse", "key block", "key type", "key unsupported"}
Apt(r) ==
  IF r.usage \notin {"ssh", "gpg"} THEN {"key usage"} \cup If(r.void, "key payload")
  ELSE IF r.void THEN {"key payload"}
  ELSE IF r.form = "damaged" THEN Malformed
  ELSE IF r.form \in PemForms \cup SshForms /\ r.kind = "rsa" THEN {"key mismatch"}
  ELSE IF r.form \in PgpForms /\ r.kind = "pgp" THEN {"key mismatch"} \cup If(r.truth.algo \notin DOMAIN PgpAlgo, "key parse")
  ELSE Malformed \cup If(r.form = "blank", "key payload") \cup {"key mismatch"}

Judge(r) ==
  LET s == r.name \o " as " \o r.form \o " for " \o r.usage \o " " \o r.comment \o ": "
  IN  IF r.panic THEN {D("panic", s \o r.err, {"C23", "C20"})}
      ELSE IF r.form = "damaged" \* well-formed or not, by an independent reading; what is stored is always of the key it is
      THEN If(r.ok /\ ~r.shaped, D("key", "accepted, damaged " \o r.name, {"C23", "C20"}))
           \cup (IF r.ok /\ r.shaped /\ Ssh(r) # {} THEN {D("key", r.name \o " damaged: " \o ToString(Ssh(r)), {"C23"})} ELSE {})
      ELSE IF Accept(r) # r.ok
      THEN {D("key", s \o (IF r.ok THEN "accepted" ELSE "refused " \o r.err), {"C23", "C06", "C20"})}
      ELSE IF ~r.ok THEN If(r.says = << >>, D("refusal", s \o "no reason: " \o r.err, {"C26"}))
                         \cup If(~(ToSet(r.says) \subseteq Apt(r)), D("refusal", s \o ToString(ToSet(r.says) \ Apt(r)) \o " does not apply", {"C26"}))
      ELSE LET ds == (IF r.form \in PgpForms THEN Pgp(r) ELSE Ssh(r)) \cup If(r.key.comment # Comment(r), "comment " \o r.key.comment)
           IN  IF ds # {} THEN {D("key", s \o ToString(ds), {"C23"})} ELSE {}

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
