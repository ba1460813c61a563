-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories.  A history has the    *)
(* operations some goroutines performed on one database at the same time,  *)
(* with the moments of their calls and returns, what they reported, and    *)
(* the states, in memory and in the file, before and after.                *)
(*                                                                         *)
(* TLC searches for an order of the operations that respects real time     *)
(* (an operation that returned before another one was called precedes it)  *)
(* and in which each of them does, and reports, exactly what Identity says *)
(* of the state the previous ones left; after the last of them the state   *)
(* is the one observed in memory, and the state last saved the one in the  *)
(* file.  A history without such an order is printed as a DIFF.            *)
(*                                                                         *)
(* Times and digests are no part of these states (they are 0); identifiers *)
(* and hashes are those found in the lists and the final state, f having   *)
(* the candidates.                                                         *)
(***************************************************************************)
EXTENDS Results

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, done, st, saved, sec
vars == <<h, done, st, saved, sec>>

Ops == Log[h].ops

Init ==
  /\ h \in 1..Len(Log)
  /\ ~Log[h].hang
  /\ done = {}
  /\ st = Log[h].init /\ saved = Log[h].saved
  /\ sec = FoldLeft(LAMBDA acc, p : acc @@ (p[1] :> p[2]), << >>, Log[h].sec)

Ready(i) == /\ i \notin done
            /\ \A j \in DOMAIN Ops \ (done \cup {i}) : Ops[j].t1 > Ops[i].t0

\* The directory of the file may have been away.
MayFail(r) == Log[h].faulty /\ r.op \in Writes \ {"Copy"}

\* The operation is as the specification says; rs are the reasons to refuse it.
Fits(r, rs, post) ==
  /\ ~r.r.panic
  /\ r.r.ok => rs = {}
  /\ r.r.ok \/ rs # {} \/ MayFail(r)
  /\ CASE r.op = "Copy" -> r.r.st = post
       [] r.op = "Peek" -> r.r.st = saved
       [] r.op = "GetUser" -> IF rs = {} THEN r.r.usr = st.us[Who(Bound(st, r.a))] ELSE ~r.r.pay
       [] OTHER -> ResultDiffs(st, sec, << >>, r, rs, post) = {}

Secret(r) == CASE r.op \in {"AddUser", "ChangeUserPassword"} -> r.a.pw
               [] r.op = "AddAPIKey" -> r.r.key

\* What is left after operation i, for each of the values it may have chosen:
\* <<state, saved state, secrets>>.
Outcomes(i) ==
  LET r  == Ops[i]
      rs == Reasons(st, sec, r.op, r.a)
  IN  IF ~r.r.ok \/ r.op \notin Writes
      THEN IF Fits(r, rs, st) THEN {<<st, saved, sec>>} ELSE {}
      ELSE IF rs # {} THEN {}
      ELSE {LET f == r.f[k]
                post == Effect(st, r.op, r.a, f)
            IN  IF Fits(r, rs, post)
                THEN <<post, IF r.op = "Copy" THEN saved ELSE post,
                       IF r.op \in {"AddUser", "ChangeUserPassword", "AddAPIKey"} THEN (f.h :> Secret(r)) @@ sec ELSE sec>>
                ELSE << >> : k \in DOMAIN r.f} \ {<< >>}

Same3(o) == o[1] = st /\ o[2] = saved

Next ==
  LET ready == {i \in DOMAIN Ops : Ready(i)}
      out   == [i \in ready |-> Outcomes(i)]
      \* an operation that changes nothing may as well come first
      quiet == {i \in ready : \E o \in out[i] : Same3(o)}
  IN  IF quiet # {}
      THEN /\ done' = done \cup {Min(quiet)}
           /\ UNCHANGED <<h, st, saved, sec>>
      ELSE \E i \in ready : \E o \in out[i] :
             /\ done' = done \cup {i}
             /\ st' = o[1] /\ saved' = o[2] /\ sec' = o[3]
             /\ UNCHANGED h

Spec == Init /\ [][Next]_vars

Explained == done = DOMAIN Ops /\ st = Log[h].final /\ saved = Log[h].file

\* The histories explained, and how many operations of each could be explained.
Best(reg) == IF h \in DOMAIN reg THEN reg[h] ELSE 0
Note ==
  /\ TLCSet(1, IF Explained THEN TLCGet(1) \cup {h} ELSE TLCGet(1))
  /\ TLCSet(2, IF Cardinality(done) > Best(TLCGet(2)) THEN (h :> Cardinality(done)) @@ TLCGet(2) ELSE TLCGet(2))

ASSUME TLCSet(1, {}) /\ TLCSet(2, << >>)

Judged ==
  LET good == TLCGet(1)
      best == TLCGet(2)
  IN  \A k \in 1..Len(Log) :
        IF Log[k].hang THEN PrintT("DIFF " \o ToJson([l |-> k, what |-> "hang", detail |-> "", owners |-> {"C13"}]))
        ELSE IF k \in good THEN TRUE
        ELSE PrintT("DIFF " \o ToJson([l |-> k, what |-> "order", owners |-> {"C13"},
                      detail |-> "no order of the operations explains the results and the final state; explained: "
                                 \o ToString(IF k \in DOMAIN best THEN best[k] ELSE 0) \o " of " \o ToString(Len(Log[k].ops))]))
=============================================================================
