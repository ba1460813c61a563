------------------------------ MODULE Locking ------------------------------
(***************************************************************************)
(* How the operations of one database are meant to exclude one another:    *)
(* each of them is a sequence of steps between taking a readers-writer     *)
(* lock and releasing it.  Two writers add elements to the list (some of   *)
(* them the same one, which the check has to find), and raise the          *)
(* revision; a reader looks at the list twice.  Steps of different threads *)
(* interleave in every way; a waiting writer holds back new readers, as    *)
(* sync.RWMutex does.                                                      *)
(*                                                                         *)
(* With a step left out, moved, or repeated, some invariant has to break   *)
(* (the check runs these variants, too): the invariants are what Lin       *)
(* looks for in histories of the real code.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils, TLC

Variant == IOEnv.VARIANT
Threads == IF IOEnv.DEPTH = "deep" THEN 1..4 ELSE 1..3

\* What a writer does; the element "load" takes its value for the change, and
\* "marshal" the one to be written to the file, as the real code does.
Writer ==
  CASE Variant = "no lock"        -> <<"check", "load", "store", "marshal", "write", "ret">>
    [] Variant = "read lock"      -> <<"rlock", "check", "load", "store", "marshal", "write", "runlock", "ret">>
    [] Variant = "check outside"  -> <<"check", "lock", "load", "store", "marshal", "write", "unlock", "ret">>
    [] Variant = "two sections"   -> <<"rlock", "check", "runlock", "lock", "load", "store", "marshal", "write", "unlock", "ret">>
    [] Variant = "save outside"   -> <<"lock", "check", "load", "store", "marshal", "unlock", "write", "ret">>
    [] Variant = "upgrade"        -> <<"rlock", "check", "lock", "load", "store", "marshal", "write", "unlock", "runlock", "ret">>
    [] Variant = "early return"   -> <<"lock", "check", "load", "store", "unlock", "ret", "marshal", "write">>
    [] OTHER                      -> <<"lock", "check", "load", "store", "marshal", "write", "unlock", "ret">>
Reader ==
  CASE Variant = "no read lock"   -> <<"look", "again", "ret">>
    [] Variant = "lock twice"     -> <<"rlock", "rlock", "look", "again", "runlock", "runlock", "ret">>
    [] OTHER                      -> <<"rlock", "look", "again", "runlock", "ret">>

VARIABLES lock,   \* [w |-> the writer or 0, r |-> number of read locks of each thread, q |-> threads waiting to write]
          mem, rev, file, pc, loc, kind, out
vars == <<lock, mem, rev, file, pc, loc, kind, out>>

\* out: what returned: "added", "refused", "same", "torn"
Init ==
  /\ lock = [w |-> 0, r |-> [t \in Threads |-> 0], q |-> {}]
  /\ mem = << >> /\ rev = 0 /\ file = << << >>, 0 >>
  /\ pc = [t \in Threads |-> 1]
  /\ loc = [t \in Threads |-> [seen |-> << >>, free |-> TRUE, buf |-> << << >>, 0 >>, first |-> << >>, torn |-> FALSE]]
  /\ kind \in [Threads -> {"read", "a", "b"}]
  /\ out = [t \in Threads |-> "none"]

Program(t) == IF kind[t] = "read" THEN Reader ELSE Writer
Step(t) == Program(t)[pc[t]]
Skip(t, n) == pc' = [pc EXCEPT ![t] = @ + n]
In(x, q) == \E i \in 1..Len(q) : q[i] = x

Lock(t) ==
  \/ /\ t \notin lock.q /\ (lock.w # 0 \/ \E u \in Threads : lock.r[u] > 0)
     /\ lock' = [lock EXCEPT !.q = @ \cup {t}] /\ UNCHANGED pc
  \/ /\ lock.w = 0 /\ \A u \in Threads : lock.r[u] = 0
     /\ lock' = [lock EXCEPT !.w = t, !.q = @ \ {t}] /\ Skip(t, 1)

\* A writer that finds the element there skips to the release of its locks.
Release(t) == LET p == Program(t)
                  rel == {i \in pc[t]..Len(p) : p[i] \in {"unlock", "runlock", "ret"}}
              IN  CHOOSE i \in rel : \A j \in rel : i <= j
Go(t) ==
  /\ pc[t] <= Len(Program(t))
  /\ UNCHANGED kind
  /\ CASE Step(t) = "lock"    -> Lock(t) /\ UNCHANGED <<mem, rev, file, loc, out>>
       [] Step(t) = "unlock"  -> lock' = [lock EXCEPT !.w = 0] /\ Skip(t, 1) /\ UNCHANGED <<mem, rev, file, loc, out>>
       [] Step(t) = "rlock"   -> /\ lock.w = 0 /\ lock.q = {}
                                 /\ lock' = [lock EXCEPT !.r[t] = @ + 1] /\ Skip(t, 1) /\ UNCHANGED <<mem, rev, file, loc, out>>
       [] Step(t) = "runlock" -> lock' = [lock EXCEPT !.r[t] = @ - 1] /\ Skip(t, 1) /\ UNCHANGED <<mem, rev, file, loc, out>>
       [] Step(t) = "check"   -> /\ IF In(kind[t], mem)
                                    THEN loc' = [loc EXCEPT ![t].free = FALSE] /\ pc' = [pc EXCEPT ![t] = IF Variant = "refused, locked" THEN Len(Program(t)) ELSE Release(t)]
                                    ELSE loc' = loc /\ Skip(t, 1)
                                 /\ UNCHANGED <<lock, mem, rev, file, out>>
       [] Step(t) = "load"    -> loc' = [loc EXCEPT ![t].seen = mem] /\ Skip(t, 1) /\ UNCHANGED <<lock, mem, rev, file, out>>
       [] Step(t) = "store"   -> /\ IF loc[t].free THEN mem' = Append(loc[t].seen, kind[t]) /\ rev' = rev + 1 ELSE UNCHANGED <<mem, rev>>
                                 /\ Skip(t, 1) /\ UNCHANGED <<lock, file, loc, out>>
       [] Step(t) = "marshal" -> loc' = [loc EXCEPT ![t].buf = <<mem, rev>>] /\ Skip(t, 1) /\ UNCHANGED <<lock, mem, rev, file, out>>
       [] Step(t) = "write"   -> /\ file' = IF loc[t].free THEN loc[t].buf ELSE file
                                 /\ Skip(t, 1) /\ UNCHANGED <<lock, mem, rev, loc, out>>
       [] Step(t) = "look"    -> loc' = [loc EXCEPT ![t].first = mem] /\ Skip(t, 1) /\ UNCHANGED <<lock, mem, rev, file, out>>
       [] Step(t) = "again"   -> loc' = [loc EXCEPT ![t].torn = @ \/ loc[t].first # mem] /\ Skip(t, 1) /\ UNCHANGED <<lock, mem, rev, file, out>>
       [] Step(t) = "ret"     -> /\ out' = [out EXCEPT ![t] = IF kind[t] = "read" THEN (IF loc[t].torn THEN "torn" ELSE "same")
                                                             ELSE IF loc[t].free THEN "added" ELSE "refused"]
                                 /\ Skip(t, 1) /\ UNCHANGED <<lock, mem, rev, file, loc>>

Next == \E t \in Threads : Go(t)
Spec == Init /\ [][Next]_vars

Returned(t) == out[t] # "none"
Finished == \A t \in Threads : pc[t] > Len(Program(t))
Adders(x) == {t \in Threads : kind[t] = x /\ out[t] = "added"}

NoDeadlock == Finished \/ ENABLED Next
NoTornRead == \A t \in Threads : out[t] # "torn"
Unique == \A i, j \in 1..Len(mem) : i # j => mem[i] # mem[j]
\* An acknowledged element is there, in memory and in the file; nobody else's is acknowledged twice.
NotLost == \A t \in Threads : out[t] = "added" => In(kind[t], mem) /\ In(kind[t], file[1])
Once == \A x \in {"a", "b"} : Cardinality(Adders(x)) <= 1
\* A refusal has its reason.
Justified == \A t \in Threads : out[t] = "refused" => In(kind[t], mem)
Final == Finished => file = <<mem, rev>> /\ rev = Len(mem) /\ Len(mem) = Cardinality({t \in Threads : out[t] = "added"})
=============================================================================
