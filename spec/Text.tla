-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts as sequences of code points, the way the library sees them: a     *)
(* byte that is not a part of valid UTF-8 is the negated byte.  Lower case,*)
(* white space, lengths in bytes, the key bcrypt makes of a text, and the  *)
(* grammars of email addresses, roles and names.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

\* Lower case, one code point at a time (the scripts of the test inputs).
LowerCp(c) ==
  CASE c < 0                                -> 65533
    [] c < 65                               -> c
    [] c >= 65 /\ c <= 90                   -> c + 32
    [] c < 192                              -> c
    [] c >= 192 /\ c <= 222 /\ c # 215      -> c + 32
    [] c < 256                              -> c
    [] c = 304                              -> 105
    [] c = 376                              -> 255
    [] c >= 256 /\ c <= 375 /\ c \notin 305..312 /\ c \notin 329..329 ->
         IF c \in 313..328
         THEN (IF c % 2 = 1 THEN c + 1 ELSE c)
         ELSE (IF c % 2 = 0 THEN c + 1 ELSE c)
    [] c \in {377, 379, 381}                -> c + 1
    [] c = 902                              -> 940
    [] c \in {904, 905, 906}                -> c + 37
    [] c = 908                              -> 972
    [] c \in {910, 911}                     -> c + 63
    [] c >= 913 /\ c <= 939 /\ c # 930      -> c + 32
    [] c >= 1024 /\ c <= 1039               -> c + 80
    [] c >= 1040 /\ c <= 1071               -> c + 32
    [] c = 7838                             -> 223
    [] c = 8486                             -> 969
    [] c = 8490                             -> 107
    [] c = 8491                             -> 229
    [] OTHER                                -> c

LowerT(s) == [i \in 1..Len(s) |-> LowerCp(s[i])]

IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
              \/ (c >= 8192 /\ c <= 8202)

TrimLeft(s)  == LET k == {i \in 1..Len(s) : ~IsSpace(s[i])}
                IN IF k = {} THEN << >> ELSE SubSeq(s, Min(k), Len(s))
Trim(s)      == LET k == {i \in 1..Len(s) : ~IsSpace(s[i])}
                IN IF k = {} THEN << >> ELSE SubSeq(s, Min(k), Max(k))
Blank(s)     == \A i \in 1..Len(s) : IsSpace(s[i])

ValidUtf8(s) == \A i \in 1..Len(s) : s[i] >= 0

CpBytes(c) ==
  CASE c < 0      -> <<-c>>
    [] c < 128    -> <<c>>
    [] c < 2048   -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536  -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER      -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

CpLen(c) == CASE c < 0 -> 1 [] c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3 [] OTHER -> 4

Bytes(s)   == FoldLeft(LAMBDA a, c : a \o CpBytes(c), << >>, s)
ByteLen(s) == FoldLeft(LAMBDA a, c : a + CpLen(c), 0, s)

(***************************************************************************)
(* bcrypt sees the bytes of the text followed by a NUL byte, repeated      *)
(* cyclically, and of that the first 72 bytes.                             *)
(***************************************************************************)
BKey(s) == LET b == Append(Bytes(s), 0)
           IN  [i \in 1..72 |-> b[((i - 1) % Len(b)) + 1]]

HasCp(s, c)   == \E i \in 1..Len(s) : s[i] = c
CountCp(s, c)    == Cardinality({i \in 1..Len(s) : s[i] = c})
FirstOf(s, c)    == Min({i \in 1..Len(s) : s[i] = c})

Alpha(c)    == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Digit(c)    == c >= 48 /\ c <= 57
AlphaNum(c) == Alpha(c) \/ Digit(c)

(***************************************************************************)
(* Email addresses, by the grammar of HTML5.                               *)
(***************************************************************************)
AtextCp == {46, 33, 35, 36, 37, 38, 39, 42, 43, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126, 45}
LocalOK(s)  == Len(s) >= 1 /\ \A i \in 1..Len(s) : AlphaNum(s[i]) \/ s[i] \in AtextCp
LabelOK(s)  == /\ Len(s) \in 1..63
               /\ AlphaNum(s[1]) /\ AlphaNum(s[Len(s)])
               /\ \A i \in 1..Len(s) : AlphaNum(s[i]) \/ s[i] = 45
Split(s, c) ==  \* the parts of s between the occurrences of c
  LET at == SetToSortSeq({i \in 1..Len(s) : s[i] = c}, <)
      n  == Len(at)
      lo(k) == IF k = 1 THEN 1 ELSE at[k - 1] + 1
      hi(k) == IF k = n + 1 THEN Len(s) ELSE at[k] - 1
  IN  [k \in 1..(n + 1) |-> SubSeq(s, lo(k), hi(k))]
EmailOK(s) ==
  /\ CountCp(s, 64) = 1
  /\ LET at == FirstOf(s, 64)
         dom == SubSeq(s, at + 1, Len(s))
     IN  LocalOK(SubSeq(s, 1, at - 1)) /\ \A l \in ToSet(Split(dom, 46)) : LabelOK(l)

(***************************************************************************)
(* Roles: the text before the first slash is the organization.             *)
(***************************************************************************)
RoleOK(s)   == ~Blank(s)
RoleOf(s)   == LET t == Trim(s)
               IN  IF HasCp(t, 47)
                   THEN <<SubSeq(t, 1, FirstOf(t, 47) - 1), SubSeq(t, FirstOf(t, 47) + 1, Len(t))>>
                   ELSE << << >>, t>>
RoleText(r) == IF r[1] = << >> THEN r[2] ELSE r[1] \o <<47>> \o r[2]

(***************************************************************************)
(* Names: "Last, First" or "First Last".                                   *)
(***************************************************************************)
NameParts(s) ==   \* <<first, last>> or << >> when the text is not a name
  LET t == Trim(s)
      c == Split(t, 44)
      b == Split(t, 32)
  IN  IF Len(c) = 2 THEN <<Trim(c[2]), Trim(c[1])>>
      ELSE IF Len(b) = 2 THEN <<Trim(b[1]), Trim(b[2])>>
      ELSE << >>
FullName(first, last) == last \o (IF first = << >> THEN << >> ELSE <<44, 32>> \o first)
=============================================================================
