-------------------------------- MODULE Totp --------------------------------
(***************************************************************************)
(* Time-based one-time passwords.  The codes of RFC 6238 come from an      *)
(* implementation of that RFC in the harness, as a table r.gen of records  *)
(* [c, code]: c the number of the period.  Which of them are accepted, and *)
(* when, is specified here.                                                *)
(***************************************************************************)
EXTENDS Table

Algs    == <<"sha1", "sha256", "sha512">>
Periods == {30, 31, 45, 60, 90, 97, 120, 150, 180, 240, 299, 300}

(***************************************************************************)
(* Cases.                                                                  *)
(***************************************************************************)
\* Codes of every period around the one of the given time, for every token.
ValCases ==
  {[k |-> "val", al |-> al, di |-> di, pe |-> pe, off |-> off, pos |-> pos, how |-> "plain", ty |-> "totp"] :
     al \in ToSet(Algs), di \in 4..8, pe \in Periods, off \in -4..4, pos \in {"first", "mid", "last"}}
\* Ways to write a code, and to get it wrong.
Hows == {"plain", "space before", "space after", "newline", "nbsp", "inner space", "longer", "shorter", "zero before",
         "fullwidth", "plus", "minus", "other secret", "other algorithm", "other digits", "other period", "empty", "blank", "upper"}
HowCases ==
  {[k |-> "val", al |-> al, di |-> di, pe |-> pe, off |-> off, pos |-> "mid", how |-> how, ty |-> "totp"] :
     al \in ToSet(Algs), di \in 4..8, pe \in {30, 97}, off \in {-1, 0, 2}, how \in Hows}
\* The code of now, for tokens of all types.
NowCases ==
  {[k |-> "now", al |-> al, di |-> di, pe |-> pe, off |-> off, pos |-> "now", how |-> "plain", ty |-> ty] :
     al \in ToSet(Algs), di \in {4, 6, 8}, pe \in {30, 45, 300}, off \in -3..3, ty \in {"totp", "u2f", "hotp", "", "TOTP"}}
EnrollAlgs == {"", "sha1", "SHA1", "Sha256", "sha256", "SHA512", "sha512", "md5", "sha-1", "sha384", " sha1", "SHA-256", "sha5120"}
EnrollCases ==
  {[k |-> "enroll", al |-> al, di |-> di, pe |-> pe, off |-> off, pos |-> "now", how |-> "plain", ty |-> "totp"] :
     al \in EnrollAlgs, di \in {-1, 0, 3, 4, 6, 8, 9}, pe \in {29, 30, 300, 301}, off \in {-1}}
  \cup
  {[k |-> "enroll", al |-> al, di |-> di, pe |-> pe, off |-> off, pos |-> "now", how |-> how, ty |-> "totp"] :
     al \in {"", "sha1", "SHA256", "sha512"}, di \in {0, 5, 8}, pe \in {30, 60, 299}, off \in -4..2,
     how \in {"plain", "space before", "other secret", "other algorithm"}}
  \cup
  {[k |-> "enroll", al |-> "sha1", di |-> di, pe |-> pe, off |-> off, pos |-> "now", how |-> "plain", ty |-> "totp"] :
     di \in -1..10, pe \in {-300, -30, -1, 0, 1, 15, 29, 30, 31, 150, 299, 300, 301, 600, 3000}, off \in {-2, 0}}

\* The vectors of RFC 6238, as far as their times are numbers of TLC.
Vectors == <<
  [al |-> "sha1",   t |-> 59,         code |-> "94287082"], [al |-> "sha256", t |-> 59,         code |-> "46119246"],
  [al |-> "sha512", t |-> 59,         code |-> "90693936"], [al |-> "sha1",   t |-> 1111111109, code |-> "07081804"],
  [al |-> "sha256", t |-> 1111111109, code |-> "68084774"], [al |-> "sha512", t |-> 1111111109, code |-> "25091201"],
  [al |-> "sha1",   t |-> 1111111111, code |-> "14050471"], [al |-> "sha256", t |-> 1111111111, code |-> "67062674"],
  [al |-> "sha512", t |-> 1111111111, code |-> "99943326"], [al |-> "sha1",   t |-> 1234567890, code |-> "89005924"],
  [al |-> "sha256", t |-> 1234567890, code |-> "91819424"], [al |-> "sha512", t |-> 1234567890, code |-> "93441116"],
  [al |-> "sha1",   t |-> 2000000000, code |-> "69279037"], [al |-> "sha256", t |-> 2000000000, code |-> "90698825"],
  [al |-> "sha512", t |-> 2000000000, code |-> "38618901"] >>
VectorCases ==
  {[k |-> "vector", al |-> Vectors[i].al, di |-> 8, pe |-> 30, off |-> i, pos |-> "vector", how |-> Vectors[i].code, ty |-> "totp", t |-> Vectors[i].t] : i \in DOMAIN Vectors}

ASSUME CasesOut(SetToSeq(ValCases) \o SetToSeq(HowCases) \o SetToSeq(NowCases) \o SetToSeq(EnrollCases) \o SetToSeq(VectorCases))

(***************************************************************************)
(* The table.                                                              *)
(***************************************************************************)
\* The code is the one of a period in the range.
CodeIn(r, lo, hi) == \E i \in DOMAIN r.gen : r.gen[i].c \in lo..hi /\ r.gen[i].code = Trim(r.code)
PeriodOf(t, pe)   == t \div pe

\* A token accepts a code at the time t.
Accepts(r, t) == r.ty = "totp" /\ CodeIn(r, PeriodOf(t, r.pe) - 1, PeriodOf(t, r.pe) + 1)

LowAlg(a) == LowerT(a)
\* al is a sequence of code points in requests to enrol
KnownAlg(a) == LowAlg(a) \in {<< >>, <<115, 104, 97, 49>>, <<115, 104, 97, 50, 53, 54>>, <<115, 104, 97, 53, 49, 50>>}
Enrolls(r, t) ==
  /\ KnownAlg(r.alt)
  /\ r.pe \in 30..300
  /\ r.di = 0 \/ r.di \in 4..8
  /\ CodeIn(r, PeriodOf(t, r.pe) - 2, PeriodOf(t, r.pe))
\* What an enrolled token has.
EnrolledAs(r) ==
  /\ r.tok.al = (IF r.alt = << >> THEN <<115, 104, 97, 49>> ELSE LowAlg(r.alt))
  /\ r.tok.pe = r.pe /\ r.tok.di = (IF r.di = 0 THEN 6 ELSE r.di) /\ r.tok.se

\* The calls were made between t0 and t1; both have to agree for a verdict.
Verdict(r) ==
  LET f(t) == CASE r.k = "enroll" -> (r.pe > 0 /\ Enrolls(r, t)) [] OTHER -> Accepts(r, t)
  IN  IF f(r.t0) # f(r.t1) THEN "any" ELSE IF f(r.t0) THEN "yes" ELSE "no"

\* What a refusal may name.
Apt(r) == IF r.k # "enroll" THEN {"code"}
          ELSE If(~KnownAlg(r.alt), "algorithm") \cup If(r.pe \notin 30..300, "period") \cup If(r.di # 0 /\ r.di \notin 4..8, "digits")
               \cup If(r.pe <= 0 \/ ~CodeIn(r, PeriodOf(r.t0, r.pe) - 2, PeriodOf(r.t0, r.pe)) \/ ~CodeIn(r, PeriodOf(r.t1, r.pe) - 2, PeriodOf(r.t1, r.pe)), "code")

Judge(r) ==
  IF r.panic THEN {D("panic", r.err, {"C08", "C20"})}
  ELSE If(~r.ok /\ (Len(r.says) # 1 \/ ~(ToSet(r.says) \subseteq Apt(r))), D("refusal", r.err, {"C26"})) \cup
       If(Verdict(r) = "yes" /\ ~r.ok, D(r.k, "refused: " \o r.err, {"C08"}))
       \cup If(Verdict(r) = "no" /\ r.ok, D(r.k, "accepted", {"C08"}))
       \cup If(r.k = "enroll" /\ r.ok /\ ~EnrolledAs(r), D(r.k, "other parameters than requested", {"C08", "C07"}))
       \* the oracle itself, and the real code, at the vectors of the RFC
       \cup If(r.k = "vector" /\ (~r.ok \/ ~ CodeIn(r, PeriodOf(r.t0, 30), PeriodOf(r.t0, 30))), D("vector", "", {"C08"}))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
