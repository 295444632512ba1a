-------------------------------- MODULE Roles --------------------------------
(* Which roles a user has: the rules that map identities, applications and endpoints to roles.  R01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC" \in DOMAIN IOEnv
Steps == 16
VARIABLES rules, last, hist, fin
vars == <<rules, last, hist, fin>>
\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
RandSub(S, n) == {x \in S : OneIn(n)}

Ids == {"anon", "alice", "carol", "x1", "x2", "issued"}
Apps == {"client1", "client2"}
Eps == {"here", "there"}
RoleIds == {"A", "B", "C", "D"}
Kind(id) == CASE id = "anon" -> "anonymous" [] id \in {"alice", "carol"} -> "name" [] id \in {"x1", "x2"} -> "cert" [] OTHER -> "issued"

---- (* the rule *)
Matches(id, c) == CASE c.type = "Anonymous" -> Kind(id) = "anonymous"
                    [] c.type = "AuthenticatedUser" -> Kind(id) # "anonymous"
                    [] c.type = "UserName" -> Kind(id) = "name" /\ c.val = id
                    [] c.type = "Thumbprint" -> Kind(id) = "cert" /\ c.val = id
                    [] OTHER -> FALSE
In(x, S, excl) == IF excl THEN x \notin S ELSE x \in S
Applies(r, id, app, ep) == In(app, r.apps, r.appsX) /\ In(ep, r.eps, r.epsX) /\ \E i \in 1..Len(r.ids) : Matches(id, r.ids[i])
RolesOf(rs, id, app, ep) == {rs[i].role : i \in {j \in 1..Len(rs) : Applies(rs[j], id, app, ep)}}

---- (* the rules the library comes with, and what their roles may do *)
Dflt(role, ids) == [role |-> role, ids |-> ids, apps |-> {}, appsX |-> TRUE, eps |-> {}, epsX |-> TRUE]
C(t) == <<[type |-> t, val |-> ""]>>
Default == <<Dflt("Anonymous", C("Anonymous")), Dflt("AuthenticatedUser", C("AuthenticatedUser")), Dflt("Observer", C("AuthenticatedUser")), Dflt("Operator", C("AuthenticatedUser")),
             Dflt("Engineer", <<>>), Dflt("Supervisor", <<>>), Dflt("ConfigureAdmin", <<>>), Dflt("SecurityAdmin", <<>>)>>
DefaultMay(role) == CASE role \in {"Anonymous", "AuthenticatedUser", "Observer"} -> {"browse", "read", "events"}
                      [] role = "Operator" -> {"browse", "read", "events", "write", "call"}
                      [] OTHER -> {}

---- (* choices *)
RandCrit == [type |-> One({"Anonymous", "AuthenticatedUser", "UserName", "Thumbprint", "UserName", "Thumbprint", "Role", "GroupID"}), val |-> One({"alice", "carol", "x1", "x2", "anon", ""}), upper |-> OneIn(2)]
RandRule == [role |-> One(RoleIds), ids |-> [i \in 1..One(0..3) |-> RandCrit],
             apps |-> IF OneIn(2) THEN {} ELSE RandSub(Apps, 2), appsX |-> ~OneIn(4), eps |-> IF OneIn(2) THEN {} ELSE RandSub(Eps, 2), epsX |-> ~OneIn(5)]
MCRules == {[role |-> r, ids |-> <<[type |-> t, val |-> "alice"]>>, apps |-> a, appsX |-> x, eps |-> {}, epsX |-> TRUE] : r \in {"A", "B"}, t \in {"Anonymous", "AuthenticatedUser", "UserName"}, a \in SUBSET {"client1"}, x \in BOOLEAN}

---- (* actions *)
Init == rules = <<>> /\ last = <<>> /\ hist = <<>> /\ fin = FALSE
(* a set of rules *)
Rules == /\ (IF MC THEN rules = <<>> ELSE OneIn(3) \/ hist = <<>>)
         /\ \E rs \in (IF MC THEN {<<a, b>> : a \in MCRules, b \in MCRules} ELSE {[i \in 1..One({1, 2, 3, 4, 5, 6}) |-> RandRule]}) :
              rules' = rs /\ hist' = Append(hist, IF MC THEN [op |-> "rules"] ELSE [op |-> "rules", rules |-> rs])
         /\ last' = <<>> /\ UNCHANGED fin
Ask == /\ rules # <<>> /\ (MC => last = <<>>)
       /\ \E id \in (IF MC THEN {"anon", "alice", "carol"} ELSE {One(Ids)}), app \in (IF MC THEN {"client1", ""} ELSE {One(Apps \cup {""})}), ep \in (IF MC THEN {"here"} ELSE {One(Eps \cup {""})}) :
            LET w == RolesOf(rules, id, app, ep) IN
            last' = <<id, app, ep, w>> /\ hist' = Append(hist, IF MC THEN [op |-> "ask"] ELSE [op |-> "ask", id |-> id, app |-> app, ep |-> ep, want |-> w])
       /\ UNCHANGED <<rules, fin>>
(* a server with these rules: what its users can read and write that only a role may *)
Server == /\ ~MC /\ rules # <<>> /\ OneIn(4)
          /\ \E id \in {One({"anon", "alice", "carol", "x1", "x2"})}, dflt \in {OneIn(4)} :
               LET rs == IF dflt THEN Default ELSE rules IN
               hist' = Append(hist, [op |-> "server", id |-> id, dflt |-> dflt, want |-> RolesOf(rs, id, "client1", "here"), blind |-> RolesOf(rs, id, "", ""),
                                     may |-> UNION {DefaultMay(r) : r \in RolesOf(rs, id, "client1", "here")}])
          /\ UNCHANGED <<rules, last, fin>>
Next == \/ Len(hist) < Steps /\ (Rules \/ Ask \/ Server)
        \/ Len(hist) = Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<rules, last, hist>>
Emit == (fin /\ ~MC) => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
(* a rule is blind to the others: what one rule says does not depend on the rules before it *)
Each == (MC /\ last # <<>>) => last[4] = UNION {RolesOf(<<rules[i]>>, last[1], last[2], last[3]) : i \in 1..Len(rules)}
(* nobody has a role without a rule for him *)
Sound == (MC /\ last # <<>>) => \A r \in last[4] : \E i \in 1..Len(rules) : rules[i].role = r /\ rules[i].ids # <<>> /\ (last[2] \in rules[i].apps <=> ~rules[i].appsX)
(* anonymous users write nothing by default *)
ReadOnly == "write" \notin UNION {DefaultMay(r) : r \in RolesOf(Default, "anon", "", "")}
=============================================================================
