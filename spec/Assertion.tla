----------------------------- MODULE Assertion ------------------------------
(***************************************************************************)
(* Logins by WebAuthn assertions: which documents are accepted.  Except    *)
(* for the deviations in the part "signature", the signature is the one    *)
(* the registered key makes over exactly the authenticator data and client *)
(* data of the document, whatever deviations they have.                    *)
(***************************************************************************)
EXTENDS Matrix

Gone == {"missing", "null"}
Num(S) == {ToString(n) : n \in S}
Variants ==
  V("whole", "bad", {"not base64", "not json", "array", "null json", "string json", "number json", "truncated", "trailing data", "blank", "empty object", "nothing", "base64url"})
  \cup V("id", "bad", Gone \cup {"empty", "number", "unknown", "of a disabled token", "of another user", "upper case", "with space", "prefix", "longer", "in a list", "array", "true"})
  \cup V("id", "good", {"of the second token"})
  \cup V("type", "good", Gone \cup {"empty", "other"})
  \cup V("type", "any", {"number"})
  \cup V("auth", "bad", Gone \cup {"empty", "number", "array", "blank", "not base64", "in a list", "object"} \cup Num(0..36))
  \cup V("client", "bad", Gone \cup {"empty", "number", "array", "blank", "not base64", "not json", "json array", "json null", "json string", "empty object", "truncated", "no bytes", "in a list", "object", "twice"})
  \cup V("client", "good", {"unknown members", "reordered", "white space", "escaped"})
  \cup V("ctype", "bad", Gone \cup {"empty", "create", "upper case", "with space", "prefix", "number", "in a list", "object", "true", "longer"})
  \cup V("cross", "bad", {"true"})
  \cup V("cross", "good", Gone)
  \cup V("cross", "any", {"string", "number"})
  \cup V("challenge", "bad", Gone \cup {"empty", "other", "prefix", "longer", "upper case", "number", "with space", "base64", "padded", "newline", "zero", "escaped", "swapped", "tail", "doubled", "with BOM", "quoted", "in a list", "object", "true"})
  \cup V("origin", "good", Gone \cup {"empty", "other"})
  \cup V("rp", "bad", {"other", "flipped", "zeros"})
  \cup V("rp", "bad", {"of another token"})
  \cup V("flags", "good", {"all", "UP and UV", "UP and RFU", "UP and ED", "UP and AT"})
  \cup V("flags", "bad", {"none", "all but UP", "UV only", "AT only"})
  \cup V("counter", "good", {"0", "1", "2", "256", "2147483648", "4294967295"})
  \cup V("ext", "good", {"one byte", "many bytes", "cbor"})
  \cup V("signature", "bad", Gone \cup {"in a list", "object", "hex", "empty", "number", "blank", "not base64", "no bytes", "garbage", "zeros", "truncated", "trailing byte", "by another key", "by the key of another token",
       "over authenticator data only", "over client data only", "over client data hash first", "over unhashed client data", "over other authenticator data", "over other client data", "raw form", "swapped", "of nothing"})
  \cup V("misleading", "good", {"auth_data same", "client_data same", "signature", "auth_data empty", "client_data null"})
  \cup V("misleading auth", "bad", {"flags"})
  \cup V("misleading client", "bad", {"type", "challenge", "cross"})
  \cup V("issued", "bad", {"another challenge", "empty", "padded", "shorter", "upper case"})
  \cup V("odd challenge", "good", {"base64", "base64url", "with spaces", "padded", "wide", "quotes", "long", "short", "percent", "newline"})
  \cup V("user", "bad", {"unknown", "another", "without tokens", "empty"})
  \cup V("user", "good", {"by email", "in upper case"})
  \* what is stored of the token, as in a file written by hand
  \cup V("stored", "bad", {"no u2f_id", "no key_type", "no key_algo", "no curve_xcoord", "no curve_ycoord", "no rp_id_hash", "no parameters", "x empty", "y empty", "x not base64", "y not base64",
       "x short", "y short", "x long", "y long", "x and y swapped", "x of another", "off the curve", "zeros", "key_type rsa", "key_type upper", "key_algo rs256", "key_algo upper", "key_algo empty",
       "type totp", "type upper", "type empty"})
  \cup V("stored", "good", {"as it is", "no flags", "no secret", "no comment", "with a device", "no curve_type", "no transports", "more parameters"})

\* Some parts cannot deviate at once: what stands for the whole of a part and
\* what is within, and what is taken from one and the same other token.
Whole   == {"client", "auth", "misleading", "misleading auth", "misleading client"}
Within  == [w \in Whole |->
  CASE w = "client" -> {"ctype", "cross", "challenge", "origin", "misleading client", "issued", "odd challenge"}
    [] w = "auth" -> {"rp", "flags", "counter", "ext", "misleading auth"}
    [] w = "misleading" -> {"misleading auth", "misleading client"}
    [] w = "misleading auth" -> {"flags"}
    [] w = "misleading client" -> {"ctype", "cross", "challenge", "issued", "odd challenge"}]
Clash(a, b) == \/ a \in Whole /\ b \in Within[a]
               \/ {a, b} \in {{"id", "rp"}, {"id", "signature"}, {"id", "user"}, {"stored", "id"}, {"stored", "user"}, {"challenge", "issued"}, {"challenge", "odd challenge"}, {"issued", "odd challenge"}}
Fit(d) == Len(d) < 2 \/ ~(Clash(d[1].p, d[2].p) \/ Clash(d[2].p, d[1].p))

ASSUME CasesOut(Cases(SelectSeq(Docs(Variants, IOEnv.PAIRS = "yes"), Fit)))

\* Of a record of the kind "flip", one byte of one part was changed; "bits",
\* "count" and "extra" have any flags, counter, extension data.
Good(r) ==
  CASE r.k = "doc"   -> Class(r.d)
    [] r.k = "flip"  -> "bad"
    [] r.k = "bits"  -> IF r.n % 2 = 1 THEN "good" ELSE "bad"
    [] r.k \in {"count", "extra"} -> "good"

\* What a token by itself does not look at, or is about another token.
NotOfToken == {"id", "user", "challenge", "odd challenge", "issued", "client", "misleading client", "stored"}
OfToken(r) == r.k # "doc" \/ \A i \in DOMAIN r.d : r.d[i].p \notin NotOfToken

Judge(r) ==
  LET c == Good(r)
      s == IF r.k = "doc" THEN Show(r.d) ELSE r.k \o " " \o ToString(r.n) \o " "
  IN  IF r.panic THEN {D("panic", s \o r.err, {"C20", "C09"})}
      ELSE If(c = "good" /\ ~r.ok, D("assertion", "refused: " \o s \o r.err, {"C09"}))
           \cup If(c = "bad" /\ r.ok, D("assertion", "accepted: " \o s, {"C09"}))
           \cup If(r.died # "", D("panic", s \o r.died, {"C20", "C09"}))
           \cup If(r.ok /\ r.died = "" /\ r.tokens = 0, D("assertion", "refused by each token: " \o s, {"C09"}))
           \cup If(c = "bad" /\ OfToken(r) /\ r.tokens # 0, D("assertion", "accepted by a token: " \o s, {"C09"}))
           \cup If(r.code # (IF r.ok THEN 200 ELSE 400), D("assertion", "response code: " \o s, {"C09"}))
           \cup If(~r.same, D("assertion", "changed the database: " \o s, {"C21", "C09"}))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
