--------------------------------- MODULE Fs ---------------------------------
(***************************************************************************)
(* A file system as far as crashes are concerned.  The volatile view is    *)
(* what programs see.  After a crash (of the machine), what is not         *)
(* synchronised may be as at any moment since it was last synchronised,    *)
(* each entry of a directory and each file by itself, and the content of a *)
(* file that changed since then may be anything.                           *)
(*                                                                         *)
(* A view:   obj: id -> [k: kind, c: content, to: path (of links)]         *)
(*           ent: <<id of directory, name>> -> id                          *)
(* Of these: cn:  id -> set of contents the file may have after a crash    *)
(*           nm:  <<id of directory, name>> -> set of ids it may refer to  *)
(*                (0: no such entry)                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Absent == -1
Torn   == -2
IsDir  == -3
Loop   == -4

EntAt(v, e) == IF e \in DOMAIN v.ent THEN v.ent[e] ELSE 0

\* Everything is synchronised.
Settled(v) ==
  [cn |-> [i \in DOMAIN v.obj |-> {v.obj[i].c}],
   nm |-> [e \in DOMAIN v.ent |-> {v.ent[e]}],
   obj |-> v.obj]

\* A change happened, v is the view after it.
Changed(s, v) ==
  LET ids == DOMAIN s.cn \cup DOMAIN v.obj
      es  == DOMAIN s.nm \cup DOMAIN v.ent
  IN [cn |-> [i \in ids |->
                IF i \notin DOMAIN s.cn THEN {0, v.obj[i].c} \* its content is as volatile as its entry
                ELSE IF i \in DOMAIN v.obj THEN s.cn[i] \cup {v.obj[i].c} ELSE s.cn[i]],
      nm |-> [e \in es |-> (IF e \in DOMAIN s.nm THEN s.nm[e] ELSE {0}) \cup {EntAt(v, e)}],
      obj |-> [i \in ids |-> IF i \in DOMAIN v.obj THEN v.obj[i] ELSE s.obj[i]]]

\* The object i was synchronised.
Synced(s, v, i) ==
  [s EXCEPT !.cn = [j \in DOMAIN @ |-> IF j = i /\ i \in DOMAIN v.obj THEN {v.obj[i].c} ELSE @[j]],
            !.nm = [e \in DOMAIN @ |-> IF e[1] = i THEN {EntAt(v, e)} ELSE @[e]]]

(***************************************************************************)
(* What a path may lead to after a crash; with a settled state, what it    *)
(* leads to: contents of files, or one of the values above.                *)
(***************************************************************************)
RECURSIVE Outcomes(_, _, _, _, _)
Outcomes(s, root, i, path, n) ==
  IF i = 0 THEN {Absent}
  ELSE IF n = 0 THEN {Loop}
  ELSE LET o == s.obj[i]
       IN  CASE o.k = "link" -> Outcomes(s, root, root, o.to \o path, n - 1)
             [] o.k = "file" -> IF path # << >> THEN {Absent}
                                ELSE IF Cardinality(s.cn[i]) = 1 THEN s.cn[i] ELSE {Torn}
             [] o.k = "dir"  ->
                  IF path = << >> THEN {IsDir}
                  ELSE LET e == <<i, path[1]>>
                       IN  UNION {Outcomes(s, root, j, Tail(path), n) : j \in (IF e \in DOMAIN s.nm THEN s.nm[e] ELSE {0})}

AfterCrash(s, root, path) == Outcomes(s, root, root, path, 5)
Seen(v, root, path)       == CHOOSE x \in Outcomes(Settled(v), root, root, path, 5) : TRUE
=============================================================================
