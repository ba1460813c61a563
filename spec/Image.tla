------------------------------- MODULE Image --------------------------------
(***************************************************************************)
(* What interrupted operations left is loaded, and goes on being used.     *)
(***************************************************************************)
EXTENDS Table

ASSUME CasesOut(<< >>)

Judge(r) ==
  LET s == r.op \o ", after " \o r.ev \o " (" \o ToString(r.n) \o "), " \o r.variant \o ": "
      was == If(~r.main /\ r.there /\ ~r.sameold, D("image", s \o "another file changed", {"C12"}))
      \* what is at the target of a copy may not be a database
      none == r.there /\ r.sameold /\ ~r.olddb
  IN  IF r.panic THEN {D("panic", s \o r.err, {"C12", "C15"})}
      ELSE IF none THEN {}
      ELSE was
           \cup If(~r.loads, D("image", s \o "does not load: " \o r.err, {"C12"}))
           \cup If(r.there /\ ~r.sameold /\ ~r.samenew, D("image", s \o "the file is neither the old nor the new one", {"C12"}))
           \cup If(r.loads /\ ~r.there /\ (r.hadold \/ r.count # 0), D("image", s \o "the file is gone", {"C12"}))
           \cup If(r.loads /\ (~r.goes \/ r.after # r.count), D("image", s \o "cannot be used: " \o r.err, {"C12"}))

Next == StepWith(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
