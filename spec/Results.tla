------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* What a request reports, compared with what it has to report in a state: *)
(* the part of the judgement that traces (Trace) and concurrent histories  *)
(* (Lin) have in common.                                                   *)
(***************************************************************************)
EXTENDS Identity

Has(r, k) == k \in DOMAIN r

\* A deviation, with the properties it breaks.
D(what, detail, owners) == [what |-> what, detail |-> detail, owners |-> owners]

Home(op) ==
  CASE op = "AddUser"            -> {"C01"}
    [] op = "ChangeUserPassword" -> {"C03"}
    [] op = "AuthenticateUser"   -> {"C02"}
    [] op = "IdentifyUser"       -> {"C18"}
    [] op \in {"AddAPIKey", "DeleteAPIKey", "GetAPIKeys", "LookupAPIKey"} -> {"C05"}
    [] op \in {"AddPublicKey", "DeletePublicKey", "GetPublicKeys"}        -> {"C06"}
    [] op \in {"AddMfaToken", "DeleteMfaToken", "GetMfaTokens"}           -> {"C07"}
    [] op \in {"Save", "Copy", "Reload", "Open"} -> {"C10"}
    [] op = "Policy"             -> {"C14"}
    [] op \in {"GetUser", "DeleteUser"} -> {"C04"}
    [] OTHER                     -> {"C21"}

PolicyTexts(r) == <<T(r.us), T(r.ur), T(r.ps), T(r.pr)>>

ResultDiffs(st, sec, pols, r, rs, post) ==
  LET op == r.op  a == r.a  q == r.r
  IN CASE op = "AuthenticateUser" ->
            LET w == ByLogin(st, a.un)
                one == w # {} /\ Cardinality({j \in DOMAIN st.us[Who(w)].pw : Active(st.us[Who(w)].pw[j])}) = 1
            IN  If(q.ok /\ q.code # 200, D("code", "not 200 after success", {"C02", "C09"}))
                \cup If(~q.ok /\ q.code # 400, D("code", "not 400 after failure", {"C02", "C09", "C22"}))
                \cup If(T(a.pw) # << >> /\ (w = {} \/ one) /\ q.hn # 1, D("hashes", "not one password hash", {"C22"}))
                \cup If(T(a.pw) # << >> /\ w = {} /\ \E j \in DOMAIN q.hc : q.hc[j] # 10, D("hashes", "cost is not 10", {"C22"}))
       [] op = "IdentifyUser" ->
            LET e == Identified(st, a)
                own == IF e.known THEN {} ELSE {"C22"}
            IN  If(q.code # e.code, D("identify:code", "", own \cup {"C18"}))
                \cup If(T(q.un) # e.un, D("identify:username", "", own \cup {"C18"}))
                \cup If(T(q.em) # e.em, D("identify:email", "", own \cup {"C18"}))
                \cup If(T(q.fn) # e.fn, D("identify:name", "", own \cup {"C18"}))
                \cup If([i \in DOMAIN q.rl |-> T(q.rl[i])] # e.rl, D("identify:roles", "", own \cup {"C18"}))
                \cup If(q.ch # e.ch, D("identify:challenges", "", own \cup {"C07"}))
                \cup If(q.fl # e.fl, D("identify:flags", "", own \cup {"C07"}))
       [] op = "GetUsers" ->
            IF rs # {} THEN If(q.pay, D("list", "given without authority", {"C04", "C21"}))
            ELSE If([i \in DOMAIN q.lst |-> [q.lst[i] EXCEPT !.un = T(@), !.em = T(@), !.nm = T(@)]] # Metadata(st),
                    D("list", "is not the users", {"C21"}))
                 \cup If(Has(q, "size") /\ q.size # Len(st.us), D("list", "size", {"C21"}))
       [] op = "GetUser" ->
            IF rs # {} THEN If(q.pay, D("user", "given without authority", {"C04"}))
            ELSE LET i == Who(Bound(st, a))
                 IN  If(q.id # st.us[i].id, D("user", "another user", {"C04", "C21"}))
                     \cup If(q.id = st.us[i].id /\ q.d # q.ds[i], D("user", "not as stored", {"C21"}))
       [] op \in {"GetAPIKeys", "GetPublicKeys", "GetMfaTokens"} ->
            IF rs # {} THEN If(q.pay, D("list", "given without authority", {"C04"} \cup Home(op)))
            ELSE LET e == Listing(st, op, a)
                 IN  If(q.ids # [j \in DOMAIN e |-> e[j].id] \/ q.ds # [j \in DOMAIN e |-> e[j].d],
                        D("list", "is not the keys", {"C21", "C04"} \cup Home(op)))
                     \cup If(q.size # Len(e), D("list", "size", {"C21"} \cup Home(op)))
       [] op = "GetUserCount" -> If(q.n # Len(st.us), D("count", "", {"C21"}))
       [] op = "GetPath" -> If(~q.same, D("path", "", {"C10", "C21"}))
       [] op = "LookupAPIKey" ->
            IF q.ok /\ KeyFound(st, sec, a, SameKey) # {}
            THEN LET u == st.us[Who(KeyFound(st, sec, a, SameKey))]
                 IN  If(T(q.un) # T(u.un) \/ T(q.em) # MailText(u), D("lookup", "another owner", {"C05"}))
                     \cup If(q.code # 200, D("lookup", "code", {"C05"}))
            ELSE If(~q.ok /\ (T(q.un) # << >> \/ T(q.em) # << >> \/ q.code = 200), D("lookup", "reveals an owner", {"C05"}))
       [] op = "Copy" ->
            If(~q.path, D("copy", "path of the database changed", {"C10"}))
            \cup (IF q.ok
                  THEN LET p == post
                       IN If(~q.cok \/ q.cd # p.d \/ q.crv # p.rv, D("copy", "is not the state", {"C10"}))
                          \cup If(a.pre # "self" /\ q.cmode # a.pmode, D("copy", "permissions", {"C16"}))
                  ELSE If(~q.keep, D("copy", "failed, and changed the target", {"C11", "C12"})))
       [] op = "Recheck" -> If(q.was # q.now, D("list", "changed after it was handed out", {"C21"}))
       [] op = "Policy" -> If(pols # << >> /\ pols # PolicyTexts(q), D("policy", "texts changed", {"C14"}))
       [] OTHER -> {}
=============================================================================
