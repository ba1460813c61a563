------------------------------- MODULE Random -------------------------------
(***************************************************************************)
(* Generated values: their lengths, their alphabets, and that they never   *)
(* repeat, neither in a process nor across processes.                      *)
(***************************************************************************)
EXTENDS Table

Digits == 48..57
Lower  == 97..122
Upper  == 65..90
Alnum  == Digits \cup Lower \cup Upper
Hex    == Digits \cup (97..102) \cup (65..70)
Dashes == {9, 14, 19, 24}

One(f, a, b) == [f |-> f, a |-> a, b |-> b]
Cases ==
  {One("GetRandomString", a, 0) : a \in -3..130 \cup {1000, 4096, 65536}}
  \cup {One("NewRandomString", a, 0) : a \in 0..130 \cup {1000, 4096, 65536}}
  \cup {One("FromRange", a, b) : a \in 0..12, b \in 0..12}
  \cup {One("FromRange", a, b) : a \in {0, 1, 40, 72, 96, 1000}, b \in {0, 1, 39, 41, 72, 96, 1001}}
  \cup {[f |-> "NewID", a |-> i, b |-> 0] : i \in 1..20}
ASSUME CasesOut(SetToSeq(Cases))

Alphabet(f) == IF f = "NewRandomString" THEN Digits \cup Lower ELSE Alnum
Lo(r) == IF r.a < r.b THEN r.a ELSE r.b
Hi(r) == IF r.a < r.b THEN r.b ELSE r.a
UuidShape(s) == Len(s) = 36 /\ \A i \in 1..36 : IF i \in Dashes THEN s[i] = 45 ELSE s[i] \in Hex

Shaped(r) ==
  CASE r.f = "GetRandomString" -> Len(r.s) = (IF r.a < 1 THEN 40 ELSE r.a)
    [] r.f = "NewRandomString" -> Len(r.s) = (IF r.a = 0 THEN 32 ELSE r.a)
    [] r.f = "FromRange"       -> Len(r.s) \in Lo(r)..Hi(r)
    [] r.f = "NewID"           -> UuidShape(r.s)
OfAlphabet(r) == r.f # "NewID" => ToSet(r.s) \subseteq Alphabet(r.f)

\* Of thousands of values, every position took every character, and every
\* length there may be came up.
Lengths(f) ==
  CASE f = "GetRandomString"  -> {40}
    [] f = "GetRandomString1" -> {1}
    [] f = "NewRandomString"  -> {32}
    [] f = "NewID"            -> {36}
    [] OTHER                  -> 72..95
Many(r) ==
  If(ToSet(r.lens) # Lengths(r.f), r.f \o ": lengths " \o ToString(ToSet(r.lens)))
  \cup (IF r.f = "NewID" THEN {}
        ELSE If(\E i \in DOMAIN r.at : \E x \in ToSet(r.at[i]) : x \notin Alphabet(r.f), r.f \o ": characters out of the alphabet")
             \* few strings are as long as the longest
             \cup If(\E i \in 1..72 : i \in DOMAIN r.at /\ Alphabet(r.f) \ ToSet(r.at[i]) # {}, r.f \o ": characters that never come up"))

\* What a database gives out or keeps: hundreds of values, so that each length
\* and each character there may be comes up.
InUse == "api key" :> {40} @@ "public key" :> {40} @@ "token" :> {40} @@ "prefix" :> {24} @@ "secret" :> 72..95 @@ "user" :> {36}
Used(r) ==
  IF r.f \notin DOMAIN InUse THEN {}
  ELSE If(ToSet(r.lens) # InUse[r.f], r.f \o ": lengths " \o ToString(ToSet(r.lens)))
       \cup If(ToSet(r.at[1]) # (IF r.f = "user" THEN ToSet(r.at[1]) \cap (Hex \cup {45}) ELSE Alnum),
               r.f \o ": characters " \o ToString(ToSet(r.at[1])))
       \cup If(r.f = "user" /\ \E i \in 1..36 : i + 1 \in DOMAIN r.at /\ ~(IF i \in Dashes THEN ToSet(r.at[i + 1]) = {45} ELSE ToSet(r.at[i + 1]) \subseteq Hex),
               r.f \o ": not the shape of a UUID")
       \* of hundreds of values, each position takes most of the characters
       \cup If(r.f # "user" /\ \E i \in 1..(IF r.f = "secret" THEN 72 ELSE Len(r.at) - 1) : Cardinality(ToSet(r.at[i + 1])) < 31,
               r.f \o ": a position has few characters")

Judge(r) ==
  IF r.panic THEN {D("panic", r.f \o " " \o ToString(<<r.a, r.b>>) \o ": " \o r.err, {"C24"})}
  ELSE CASE r.k = "one" ->
            If(~Shaped(r), D("length", r.f \o " " \o ToString(<<r.a, r.b>>) \o " gives " \o ToString(Len(r.s)), {"C24"}))
            \cup If(~OfAlphabet(r), D("alphabet", r.f \o " " \o ToString(<<r.a, r.b>>), {"C24"}))
         [] r.k = "many" -> {D("distribution", x, {"C24"}) : x \in Many(r)}
         [] r.k = "processes" ->
            {D("distribution", x, {"C24"}) : x \in Used(r)}
            \cup If(Cardinality(ToSet(r.all)) # r.a \/ r.a = 0, D("repeated", r.f \o ": " \o ToString(Cardinality(ToSet(r.all))) \o " different ones of " \o ToString(r.a), {"C24"}))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
