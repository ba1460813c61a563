--------------------------------- MODULE Qr ---------------------------------
(***************************************************************************)
(* Provisioning codes.  A request is [ty, la, is, se, al, di, pe, co]; its *)
(* code is a URI, which is taken apart here the way an authenticator app   *)
(* does, to be compared with the request.                                  *)
(***************************************************************************)
EXTENDS Table

tTotp == <<116, 111, 116, 112>>
tHotp == <<104, 111, 116, 112>>

(***************************************************************************)
(* Cases.                                                                  *)
(***************************************************************************)
Base == [ty |-> "totp", la |-> "l", se |-> "n6", al |-> "", di |-> 0, pe |-> 0, co |-> 0, is |-> "i"]
Dev(c) == Cardinality({k \in DOMAIN Base : c[k] # Base[k]})
Combos ==
  {c \in [ty : {"totp", "hotp", "", "TOTP", "steam", "hotp "}, la : {"", "l", "sp", "long"}, se : {"", "n5", "n6", "n7", "u6", "n8", "n9", "n10", "n64"},
          al : {"", "sha1", "SHA256", "Sha512", "md5", "SHA-1", "sha384", " sha1"}, di : {-1, 0, 1, 3, 4, 5, 6, 7, 8, 9, 100},
          pe : {-30, 0, 1, 29, 30, 31, 60, 179, 180, 181, 360}, co : {0, 1, 100, 2147483647}, is : {"", "i"}] : Dev(c) <= 2}
HotpBase == [Base EXCEPT !.ty = "hotp", !.co = 1]
HotpCombos ==
  {[HotpBase EXCEPT !.al = al, !.di = di, !.pe = pe, !.co = co] :
     al \in {"", "sha1", "SHA512", "md5"}, di \in {0, 3, 4, 8, 9}, pe \in {0, 29, 30, 180, 181}, co \in {-1, 0, 1, 7, 1000000}}
Chars == (-255..-128) \cup (0..591) \cup {913, 1040, 1103, 1488, 8232, 8364, 12288, 20013, 65279, 65533, 65535, 65536, 128512, 1114111}
CharCases == {[at |-> at, c |-> c, n |-> n] : at \in {"la", "is", "se"}, c \in Chars, n \in {1, 2}}
ASSUME CasesOut(SetToSeq({[k |-> "combo", r |-> c] : c \in Combos \cup HotpCombos}) \o SetToSeq({[k |-> "char", r |-> c] : c \in CharCases}))

(***************************************************************************)
(* When there is a code.                                                   *)
(***************************************************************************)
KnownAlg(a) == LowerT(a) \in {<< >>, <<115, 104, 97, 49>>, <<115, 104, 97, 50, 53, 54>>, <<115, 104, 97, 53, 49, 50>>}
Buildable(q) ==
  /\ q.la # << >>
  /\ ByteLen(q.se) >= 6
  /\ q.ty = tTotp \/ (q.ty = tHotp /\ q.co >= 1)
  /\ KnownAlg(q.al)
  /\ q.di = 0 \/ q.di \in 4..8
  /\ q.pe = 0 \/ q.pe \in 30..180

(***************************************************************************)
(* Encodings.                                                              *)
(***************************************************************************)
Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1

\* Form decoding, to bytes; << -1 >> when it is malformed.
FormDecode(s) ==
  LET step(a, c) ==   \* a = [out, st, hi]
        CASE a.st = 0 /\ c = 37 -> [a EXCEPT !.st = 1]
          [] a.st = 0 /\ c = 43 -> [a EXCEPT !.out = Append(@, 32)]
          [] a.st = 0           -> [a EXCEPT !.out = Append(@, c)]
          [] a.st = 1           -> [a EXCEPT !.st = 2, !.hi = Hex(c)]
          [] OTHER              -> [a EXCEPT !.st = 0, !.out = Append(@, IF a.hi < 0 \/ Hex(c) < 0 THEN -1 ELSE 16 * a.hi + Hex(c))]
      z == FoldLeft(step, [out |-> << >>, st |-> 0, hi |-> 0], s)
  IN  IF z.st # 0 \/ -1 \in ToSet(z.out) THEN << -1 >> ELSE z.out

\* The digits of a sequence of bytes in base 2^w, the last padded by zero bits.
BitAt(b, i) == (b[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2   \* i from 1
Group(b, w, k) == \* the k-th group of w bits, from 1
  FoldLeft(LAMBDA a, i : 2 * a + (IF (k - 1) * w + i > 8 * Len(b) THEN 0 ELSE BitAt(b, (k - 1) * w + i)), 0, [i \in 1..w |-> i])
Groups(b, w) == [k \in 1..((8 * Len(b) + w - 1) \div w) |-> Group(b, w, k)]
B32Digit(v) == IF v < 26 THEN 65 + v ELSE 50 + v - 26
B64Digit(v) == CASE v < 26 -> 65 + v [] v < 52 -> 97 + v - 26 [] v < 62 -> 48 + v - 52 [] v = 62 -> 43 [] OTHER -> 47
Base32(b) == LET g == Groups(b, 5) IN [k \in 1..Len(g) |-> B32Digit(g[k])]
Base64(b) == LET g == Groups(b, 6)
                 d == [k \in 1..Len(g) |-> B64Digit(g[k])]
             IN  d \o [k \in 1..((4 - (Len(d) % 4)) % 4) |-> 61]

DigitsOf(n) == \* of a natural number
  LET f[m \in Nat] == IF m < 10 THEN <<48 + m>> ELSE Append(f[m \div 10], 48 + (m % 10)) IN f[n]

(***************************************************************************)
(* The parts of a URI.                                                     *)
(***************************************************************************)
Prefix == <<111, 116, 112, 97, 117, 116, 104, 58, 47, 47>>       \* otpauth://
UntilChar(s, c) == IF HasCp(s, c) THEN SubSeq(s, 1, FirstOf(s, c) - 1) ELSE s
AfterChar(s, c) == IF HasCp(s, c) THEN SubSeq(s, FirstOf(s, c) + 1, Len(s)) ELSE << >>
Without61(s) == SelectSeq(s, LAMBDA c : c # 61)

Rest(u)   == SubSeq(u, Len(Prefix) + 1, Len(u))
TypeOf(u) == UntilChar(Rest(u), 47)
Path(u)   == UntilChar(AfterChar(Rest(u), 47), 63)
Query(u)  == Split(AfterChar(AfterChar(Rest(u), 47), 63), 38)
Key(p)    == UntilChar(p, 61)
Val(p)    == AfterChar(p, 61)
\* The values a key has.
Vals(u, k) == LET ps == SelectSeq(Query(u), LAMBDA p : Key(p) = k) IN [i \in 1..Len(ps) |-> Val(ps[i])]

kSecret    == <<115, 101, 99, 114, 101, 116>>
kIssuer    == <<105, 115, 115, 117, 101, 114>>
kAlgorithm == <<97, 108, 103, 111, 114, 105, 116, 104, 109>>
kDigits    == <<100, 105, 103, 105, 116, 115>>
kCounter   == <<99, 111, 117, 110, 116, 101, 114>>
kPeriod    == <<112, 101, 114, 105, 111, 100>>

UriDiffs(q, u) ==
  LET one(k, d(_)) == Len(Vals(u, k)) = 1 /\ d(Vals(u, k)[1])
      none(k)      == Vals(u, k) = << >>
      totp         == q.ty = tTotp
  IN  If(\E i \in 1..Len(u) : u[i] \notin 33..126 \/ u[i] = 35, "not a URI")
      \cup If(Len(u) < 12 \/ SubSeq(u, 1, Len(Prefix)) # Prefix, "not otpauth")
      \cup If(TypeOf(u) # q.ty, "type")
      \cup If(FormDecode(Path(u)) # Bytes(q.la), "label")
      \cup If(\E p \in ToSet(Query(u)) : Key(p) \notin {kSecret, kIssuer, kAlgorithm, kDigits, kCounter, kPeriod}, "unknown parameter")
      \cup If(~one(kSecret, LAMBDA v : Without61(v) = Base32(Bytes(q.se))), "secret")
      \cup If(IF q.is = << >> THEN ~none(kIssuer) ELSE ~one(kIssuer, LAMBDA v : FormDecode(v) = Bytes(q.is)), "issuer")
      \cup If(IF q.al = << >> THEN ~none(kAlgorithm) ELSE ~one(kAlgorithm, LAMBDA v : LowerT(v) = LowerT(q.al)), "algorithm")
      \cup If(~one(kDigits, LAMBDA v : v = DigitsOf(IF q.di = 0 THEN 6 ELSE q.di)), "digits")
      \cup If(IF totp THEN ~one(kPeriod, LAMBDA v : v = DigitsOf(IF q.pe = 0 THEN 30 ELSE q.pe))
              ELSE ~(q.pe = 0 /\ none(kPeriod)) /\ ~one(kPeriod, LAMBDA v : v = DigitsOf(IF q.pe = 0 THEN 30 ELSE q.pe)), "period")
      \cup If(IF totp /\ q.co <= 0 THEN ~none(kCounter) /\ ~(q.co = 0 /\ one(kCounter, LAMBDA v : v = DigitsOf(0)))
              ELSE ~one(kCounter, LAMBDA v : v = DigitsOf(q.co)), "counter")

Judge(r) ==
  LET q == r.q
  IN  IF r.panic THEN {D("panic", r.err, {"C19", "C20"})}
      ELSE If(Buildable(q) /\ ~r.ok, D("build", "refused: " \o r.err, {"C19"}))
           \cup If(~Buildable(q) /\ r.ok, D("build", "accepted", {"C19"}))
           \cup (IF ~r.ok THEN If(r.uri # << >> \/ r.enc # << >>, D("build", "yields a code after failure", {"C19"}))
                 ELSE {D("uri", x, {"C19"}) : x \in UriDiffs(q, r.uri)}
                      \cup If(r.enc # Base64(r.uri), D("uri", "base64 form", {"C19"}))
                      \cup If(r.again # r.uri, D("uri", "differs when built again", {"C19"}))
                      \cup If(q.ty = tTotp /\ ~r.app, D("app", "codes of the app are not those of the token", {"C19", "C08"})))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
