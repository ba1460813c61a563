------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* What the decision tables have in common.  A table specifies the result  *)
(* of a call that depends on its arguments only.  In the mode "cases", the *)
(* module enumerates the cases to be tried (CasesSeq, a sequence of        *)
(* records) and writes them out; the harness executes each, adds further   *)
(* random ones, and records what the real code did; in the mode "judge",   *)
(* each record has to be what the table says (Judge(r) = {}).              *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

Mode == IOEnv.MODE
Log  == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE << >>

D(what, detail, owners) == [what |-> what, detail |-> detail, owners |-> owners]
If(c, r)  == IF c THEN {r} ELSE {}
Has(r, k) == k \in DOMAIN r

\* To be an ASSUME of the module.
CasesOut(seq) == Mode = "cases" => JsonSerialize(IOEnv.OUT, seq)

VARIABLE l
Init == l = 1
Report(r, ds) ==
  \A d \in ds : PrintT("DIFF " \o ToJson([l |-> l, what |-> d.what, detail |-> d.detail, owners |-> d.owners]))
StepWith(Judge(_)) ==
  /\ l <= Len(Log)
  /\ Report(Log[l], Judge(Log[l]))
  /\ l' = l + 1

Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
