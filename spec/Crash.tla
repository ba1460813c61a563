------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* The file-system calls of the library, as recorded by the tracer, and    *)
(* what a crash between any two of them leaves of the files of databases.  *)
(* A record has the view after a call.  The first record of a window is    *)
(* the begin of an operation, the last one its end.                        *)
(***************************************************************************)
EXTENDS Fs, Json, IOUtils, SequencesExt, Functions

Log == ndJsonDeserialize(IOEnv.TRACE)

D(what, detail, owners) == [what |-> what, detail |-> detail, owners |-> owners]

ViewOf(r) ==
  LET os == r.objects
      es == r.entries
  IN [obj |-> [i \in {os[j].id : j \in DOMAIN os} |-> LET o == os[CHOOSE j \in DOMAIN os : os[j].id = i] IN [k |-> o.k, c |-> o.c, to |-> o.to]],
      ent |-> [e \in {<<es[j].d, es[j].n>> : j \in DOMAIN es} |-> es[CHOOSE j \in DOMAIN es : <<es[j].d, es[j].n>> = e].i]]

\* The index of the last record of the window of the record l.
RECURSIVE EndOf(_)
EndOf(l) == IF Log[l].ev = "end" THEN l ELSE EndOf(l + 1)

VARIABLES l, fs, old, final, was   \* was: index of the record that began the operation
vars == <<l, fs, old, final, was>>

NoFs == [cn |-> << >>, nm |-> << >>, obj |-> << >>]
Init == l = 1 /\ fs = NoFs /\ old = << >> /\ final = << >> /\ was = 1

SeenAll(r) == LET v == ViewOf(r) IN [j \in DOMAIN r.targets |-> Seen(v, r.root, r.targets[j].path)]

Diffs(r, s, v) ==
  LET At(j)   == r.op \o ", after " \o r.ev \o " (" \o ToString(r.n) \o "): "
      Name(x) == CASE x = Torn -> "incomplete" [] x = Absent -> "missing" [] x = IsDir -> "a directory" [] OTHER -> "other content"
  IN UNION {LET t    == r.targets[j]
                out  == AfterCrash(s, r.root, t.path)
                seen == Seen(v, r.root, t.path)
                may  == IF t.main THEN {old[j], final[j]} ELSE {old[j]}
                bad  == out \ may
            IN  (IF seen \notin may THEN {D("kill", At(j) \o "the file is " \o Name(seen), {"C12"})} ELSE {})
                \cup (IF bad # {} THEN {D("crash", At(j) \o "the file may be " \o Name(CHOOSE x \in bad : TRUE) \o " after a crash", {"C12"})} ELSE {})
                \cup (IF r.ev = "end" /\ r.ok /\ ~r.fired /\ out # {final[j]}
                      THEN {D("durable", r.op \o " succeeded, and a crash may undo it", {"C12"})} ELSE {})
                \cup (IF r.ev = "end" /\ ~r.ok /\ seen # old[j]
                      THEN {D("failed", r.op \o " failed, and changed the file", {"C11", "C12"})} ELSE {})
                \cup (IF r.ev = "end" /\ r.ok /\ t.main /\ final[j] < 0
                      THEN {D("failed", r.op \o " succeeded, and the file is " \o Name(final[j]), {"C10", "C12"})} ELSE {})
            : j \in DOMAIN r.targets}

(***************************************************************************)
(* Who may read what is being written: nobody but the owner, and those who *)
(* may read the file it replaces.                                          *)
(***************************************************************************)
\* The permissions m beyond those of the owner are among those of p.
Within(m, p) == \A k \in 0..5 : (m \div 2^k) % 2 = 1 => (p \div 2^k) % 2 = 1
RECURSIVE ObjectAt(_, _, _, _, _)
ObjectAt(v, root, i, path, n) ==
  IF i = 0 \/ n = 0 THEN 0
  ELSE LET o == v.obj[i]
       IN  IF o.k = "link" THEN ObjectAt(v, root, root, o.to \o path, n - 1)
           ELSE IF path = << >> THEN i
           ELSE IF o.k = "dir" THEN ObjectAt(v, root, EntAt(v, <<i, path[1]>>), Tail(path), n)
           ELSE 0
Mode(r, i) == LET ms == {r.objects[j].m : j \in {j \in DOMAIN r.objects : r.objects[j].id = i}} IN IF ms = {} THEN 0 ELSE CHOOSE m \in ms : TRUE
Exposed(r, b) ==
  LET before == {b.objects[j].id : j \in DOMAIN b.objects}
      given  == {Mode(b, ObjectAt(ViewOf(b), b.root, b.root, b.targets[j].path, 5)) : j \in {j \in DOMAIN b.targets : b.targets[j].main}} \cup {0}
      fresh  == {j \in DOMAIN r.objects : r.objects[j].k = "file" /\ r.objects[j].d /\ r.objects[j].id \notin before}
  IN UNION {LET m == r.objects[j].m
            IN  IF \E p \in given : Within(m, p) THEN {}
                ELSE {D("exposed", r.op \o ", after " \o r.ev \o ": others may read what is being written", {"C16"})}
            : j \in fresh}

Report(r, ds) ==
  \A d \in ds : PrintT("DIFF " \o ToJson([l |-> l, op |-> r.op, what |-> d.what, detail |-> d.detail, owners |-> d.owners]))

Step ==
  /\ l <= Len(Log)
  /\ LET r == Log[l]
         v == ViewOf(r)
     IN  IF r.ev = "begin"
         THEN /\ fs' = Settled(v)
              /\ was' = l
              /\ old' = SeenAll(r)
              /\ final' = SeenAll(Log[EndOf(l)])
         ELSE LET s0 == IF r.change \/ r.sync = "" THEN Changed(fs, v) ELSE fs
                  s  == CASE r.sync = "one" -> Synced(s0, v, r.ino)
                          [] r.sync = "all" -> Settled(v)
                          [] OTHER          -> s0
              IN  /\ fs' = s
                  /\ UNCHANGED <<old, final, was>>
                  /\ Report(r, Diffs(r, s, v) \cup Exposed(r, Log[was]))
  /\ l' = l + 1

Next == Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
