------------------------------ MODULE Register ------------------------------
(***************************************************************************)
(* Registration of U2F tokens: which documents are accepted.               *)
(***************************************************************************)
EXTENDS Matrix

Gone == {"missing", "null"}
Variants ==
  V("whole", "bad", {"not base64", "not json", "array", "null json", "string json", "number json", "truncated", "trailing data", "blank", "empty object", "nothing"})
  \cup V("challenge", "bad", {"empty"})
  \cup V("id", "bad", Gone \cup {"empty", "number", "object", "array", "true", "in a list", "in an object"})
  \cup V("type", "bad", Gone \cup {"empty", "number", "array", "private-key", "Public-Key", "public-key ", "true", "in a list", "in an object"})
  \cup V("transports", "good", Gone \cup {"none", "all", "usb twice"})
  \cup V("transports", "bad", {"empty one", "wifi", "one wrong", "string", "numbers", "object", "null one", "USB", "hybrid", "smart-card", "cable", "usb space", "all and one more", "list in list"})
  \cup V("success", "good", {"missing", "false"})
  \cup V("success", "any", {"number", "string", "null"})
  \cup V("attestationObject", "bad", Gone \cup {"string", "array", "number", "true", "object"})
  \cup V("authData", "bad", Gone \cup {"string", "array", "number", "true", "object"})
  \cup V("rpIdHash", "bad", Gone \cup {"empty", "number", "array", "object", "in a list"})
  \cup V("flags", "bad", Gone \cup {"string", "array", "number", "value string", "value number"})
  \cup V("flags", "any", {"object", "value null", "no UP"})
  \cup V("signatureCounter", "good", Gone \cup {"zero", "max"})
  \cup V("signatureCounter", "any", {"negative", "fraction", "string", "too big", "array"})
  \cup V("extensions", "good", Gone \cup {"object", "string", "number", "array", "deep"})
  \cup V("credentialData", "bad", Gone \cup {"string", "array", "number", "true", "object"})
  \cup V("aaguid", "good", Gone \cup {"empty"})
  \cup V("aaguid", "any", {"number", "array"})
  \cup V("publicKey", "bad", Gone \cup {"string", "array", "number", "object"})
  \cup V("key_type", "bad", Gone \cup {"string", "one", "three", "fraction", "true", "array", "object", "big", "minus", "as text", "as name", "in a list", "in an object", "nearly"})
  \cup V("key_type", "good", {"as 2.0"})
  \cup V("algorithm", "bad", Gone \cup {"string", "rs256", "plus", "fraction", "true", "array", "object", "zero", "as text", "as name", "in a list", "in an object", "nearly"})
  \cup V("algorithm", "good", {"as -7.0"})
  \cup V("curve_type", "bad", {"null", "string", "two", "zero", "true", "array", "object", "fraction", "as text", "as name", "in a list", "in an object", "nearly"})
  \cup V("curve_type", "good", {"as 1.0"})
  \cup V("curve_type", "any", {"missing"})
  \cup UNION {V(xy, "bad", Gone \cup {"empty", "number", "array", "object", "true", "not base64", "short", "long", "zeros", "ones", "off curve", "padded left", "cut left", "hex", "list of bytes", "in a list", "in an object"}) : xy \in {"curve_x", "curve_y"}}
  \cup V("curve_y", "good", {"negated"})
  \cup V("attStmt", "good", Gone \cup {"object"})
  \cup V("attStmt", "any", {"string", "bad alg", "bad x5c", "array"})
  \cup V("fmt", "good", Gone \cup {"empty", "other"})
  \cup V("fmt", "any", {"number"})
  \cup V("clientData", "good", Gone \cup {"object"})
  \cup V("clientData", "any", {"string", "array", "type number"})
  \cup V("device", "good", Gone \cup {"object"})
  \cup V("device", "any", {"string", "name number"})
  \cup V("unknown", "good", {"top", "deep"})

ASSUME CasesOut(Cases(Docs(Variants, IOEnv.PAIRS = "yes")))

\* The parts a reason is about. One that says the document cannot be read is
\* about any part, and the whole is any part.
About == [k \in {"code", "algorithm", "period", "digits"} |-> {}]
  @@ "challenge" :> {"challenge"} @@ "registration" :> {"whole"}
  @@ "register id" :> {"id"} @@ "register type" :> {"type"} @@ "register type empty" :> {"type"}
  @@ "register transport" :> {"transports"} @@ "register transport empty" :> {"transports"}
  @@ "register object" :> {"attestationObject"} @@ "register data" :> {"authData"} @@ "register party" :> {"rpIdHash"} @@ "register flags" :> {"flags"}
  @@ "register credential" :> {"credentialData"} @@ "register key" :> {"publicKey"}
  @@ "register key type" :> {"key_type"} @@ "register no key type" :> {"key_type"}
  @@ "register algorithm" :> {"algorithm"} @@ "register no algorithm" :> {"algorithm"}
  @@ "register curve" :> {"curve_type"} @@ "register kind" :> {"key_type", "algorithm"} @@ "register point" :> {"curve_x", "curve_y"} @@ "register x" :> {"curve_x"} @@ "register y" :> {"curve_y"}
\* With a part, what is within deviates.
OfKey  == {"publicKey", "key_type", "algorithm", "curve_type", "curve_x", "curve_y"}
Within == [p \in {"attestationObject", "authData", "credentialData", "publicKey"} |->
  CASE p = "publicKey" -> OfKey [] p = "credentialData" -> OfKey \cup {"credentialData"}
    [] p = "authData" -> OfKey \cup {"credentialData", "rpIdHash", "flags"}
    [] OTHER -> OfKey \cup {"credentialData", "rpIdHash", "flags", "authData"}]
Deviating(d) == UNION {{d[i].p} \cup (IF d[i].p \in DOMAIN Within THEN Within[d[i].p] ELSE {}) : i \in {j \in DOMAIN d : d[j].c # "good"}}
Misnamed(r) ==
  LET said == ToSet(r.says)  parts == Deviating(r.d)
  IN  ~r.ok /\ ~r.panic /\ (said = {} \/ ~ \A k \in said : k = "document" \/ (k \in DOMAIN About /\ About[k] \cap parts # {}) \/ (k \in DOMAIN About /\ About[k] # {} /\ "whole" \in parts))

Judge(r) ==
  LET c == Class(r.d)
  IN  IF r.panic THEN {D("panic", Show(r.d) \o r.err, {"C20"})}
      ELSE If(c = "good" /\ ~r.ok, D("register", "refused: " \o Show(r.d) \o r.err, {"C20", "C07"}))
           \cup If(c = "bad" /\ r.ok, D("register", "accepted: " \o Show(r.d), {"C20"}))
           \cup If(Misnamed(r), D("refusal", Show(r.d) \o r.err, {"C26"}))
           \cup If(~r.ok /\ ~r.same, D("register", "refused, but changed the database: " \o Show(r.d), {"C20", "C11"}))
           \cup If(c = "good" /\ r.ok /\ ~r.stored, D("register", "stored otherwise: " \o Show(r.d), {"C20", "C09", "C07"}))
           \cup If(r.ok /\ ~r.login, D("register", "no login with the token: " \o Show(r.d), {"C20", "C09"}))
           \cup If(~r.usable, D("register", "database is not usable: " \o Show(r.d), {"C20"}))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
