------------------------------- MODULE Commit -------------------------------
(***************************************************************************)
(* How a database file is meant to be replaced, in the file system of Fs:  *)
(* the content goes to a temporary file, which is synchronised and renamed *)
(* to the target, and the directory is synchronised.  Any step may fail,   *)
(* and the machine may stop between any two of them.  What a crash leaves  *)
(* is what the next saves start from, leftovers included.                  *)
(*                                                                         *)
(* Protocol names the sequence of steps; with a step left out or moved,    *)
(* some invariant has to break (the check runs these variants, too).       *)
(***************************************************************************)
EXTENDS Fs, IOUtils, SequencesExt

Protocol ==
  CASE IOEnv.VARIANT = "intended"     -> <<"create", "write", "sync", "rename", "syncdir">>
    [] IOEnv.VARIANT = "no sync"      -> <<"create", "write", "rename", "syncdir">>
    [] IOEnv.VARIANT = "no syncdir"   -> <<"create", "write", "sync", "rename">>
    [] IOEnv.VARIANT = "late sync"    -> <<"create", "write", "rename", "sync", "syncdir">>
    [] IOEnv.VARIANT = "remove first" -> <<"create", "write", "sync", "remove", "rename", "syncdir">>
    [] IOEnv.VARIANT = "in place"     -> <<"truncate", "writetarget", "synctarget", "syncdir">>
Saves == 3
Crashes == IF IOEnv.DEPTH = "deep" THEN 3 ELSE 1
Root == 1
Target == <<Root, "db">>

VARIABLES v, s, pc, tmp, content, old, crashes, next
vars == <<v, s, pc, tmp, content, old, crashes, next>>

File(c) == [k |-> "file", c |-> c, to |-> << >>]
View(obj, ent) == [obj |-> obj, ent |-> ent]

Init ==
  /\ \E exists \in BOOLEAN :
       v = IF exists THEN View((Root :> [k |-> "dir", c |-> 0, to |-> << >>]) @@ (2 :> File(1)), (Target :> 2))
           ELSE View((Root :> [k |-> "dir", c |-> 0, to |-> << >>]), << >>)
  /\ s = Settled(v)
  /\ pc = 0 /\ tmp = 0 /\ content = 1 /\ crashes = 0 /\ next = 3
  /\ old = Seen(v, Root, <<"db">>)

Now == Seen(v, Root, <<"db">>)

Begin ==
  /\ pc = 0 /\ content <= Saves
  /\ pc' = 1 /\ content' = content + 1 /\ old' = Now /\ tmp' = 0
  /\ UNCHANGED <<v, s, crashes, next>>

To(w) == /\ v' = w
         /\ s' = Changed(s, w)
Name(i) == <<Root, "." \o ToString(i)>>
Perform(step) ==
  CASE step = "create" ->
         /\ tmp' = next /\ next' = next + 1
         /\ To(View((next :> File(10)) @@ v.obj, (Name(next) :> next) @@ v.ent))
    [] step = "write"  -> UNCHANGED <<tmp, next>> /\ To([v EXCEPT !.obj[tmp].c = content])
    [] step = "sync"   -> UNCHANGED <<tmp, next, v>> /\ s' = Synced(s, v, tmp)
    [] step = "syncdir" -> UNCHANGED <<tmp, next, v>> /\ s' = Synced(s, v, Root)
    [] step = "rename" ->
         /\ UNCHANGED <<tmp, next>>
         /\ To(View(v.obj, (Target :> tmp) @@ [e \in DOMAIN v.ent \ {Name(tmp)} |-> v.ent[e]]))
    [] step = "remove" ->
         /\ UNCHANGED <<tmp, next>>
         /\ To(View(v.obj, [e \in DOMAIN v.ent \ {Target} |-> v.ent[e]]))
    [] step = "truncate" ->
         /\ next' = next + 1 /\ UNCHANGED tmp
         /\ IF Target \in DOMAIN v.ent THEN To([v EXCEPT !.obj[v.ent[Target]].c = 10])
            ELSE To(View((next :> File(10)) @@ v.obj, (Target :> next) @@ v.ent))
    [] step = "writetarget" -> UNCHANGED <<tmp, next>> /\ To([v EXCEPT !.obj[v.ent[Target]].c = content])
    [] step = "synctarget" -> UNCHANGED <<tmp, next, v>> /\ s' = Synced(s, v, v.ent[Target])

Go ==
  /\ pc \in 1..Len(Protocol)
  /\ Perform(Protocol[pc])
  /\ pc' = pc + 1
  /\ UNCHANGED <<content, old, crashes>>

\* A step fails: the temporary file is removed, or stays (that may fail, too).
Fail ==
  /\ pc \in 1..Len(Protocol) /\ Protocol[pc] # "syncdir"
  /\ pc' = 0
  /\ \/ UNCHANGED <<v, s>>
     \/ /\ tmp # 0 /\ Name(tmp) \in DOMAIN v.ent
        /\ To(View(v.obj, [e \in DOMAIN v.ent \ {Name(tmp)} |-> v.ent[e]]))
  /\ UNCHANGED <<tmp, content, old, crashes, next>>

Succeed ==
  /\ pc = Len(Protocol) + 1
  /\ pc' = 0 /\ old' = content
  /\ UNCHANGED <<v, s, tmp, content, crashes, next>>

\* The machine stops; any of the possible entries, and contents, is found after.
Crash ==
  /\ crashes < Crashes /\ crashes' = crashes + 1
  /\ \E f \in [DOMAIN s.nm -> UNION {s.nm[e] : e \in DOMAIN s.nm} \cup {0}] :
       /\ \A e \in DOMAIN f : f[e] \in s.nm[e]
       /\ LET ent == [e \in {x \in DOMAIN f : f[x] # 0} |-> f[e]]
              obj == [i \in DOMAIN s.obj |-> IF s.obj[i].k = "file"
                        THEN File(IF Cardinality(s.cn[i]) = 1 THEN CHOOSE c \in s.cn[i] : TRUE ELSE 11)
                        ELSE s.obj[i]]
          IN  v' = View(obj, ent) /\ s' = Settled(v')
  /\ pc' = 0 /\ tmp' = 0
  /\ old' = Seen(v', Root, <<"db">>)
  /\ UNCHANGED <<content, next>>

Next == Begin \/ Go \/ Fail \/ Succeed \/ Crash
Spec == Init /\ [][Next]_vars

Ends == {old, content}
\* At any moment, the file is the old or the new one, for programs and after a
\* crash; 10 is an empty file, 11 a torn one.
KillSafe  == pc > 0 => Now \in Ends
CrashSafe == AfterCrash(s, Root, <<"db">>) \subseteq (IF pc > 0 THEN Ends ELSE {old, content})
\* What has succeeded stays.
Durable   == (pc = Len(Protocol) + 1) => AfterCrash(s, Root, <<"db">>) = {content}
Whole     == Now \notin {10, 11}
=============================================================================
