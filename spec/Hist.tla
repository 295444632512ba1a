-------------------------------- MODULE Hist --------------------------------
(* The history of variables: what is recorded of their values, and who is told what of it.  H01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC_STEPS" \in DOMAIN IOEnv
Steps == IF MC THEN atoi(IOEnv.MC_STEPS) ELSE 40
MaxOps == 6                                     \* the server's limit of operations
VARIABLES conf,     \* roles of the users, permissions of the nodes, whether there is a historian
          on,       \* variable -> it is historizing
          mode,     \* variable -> what its write handler does: none, twice, reject
          value,    \* variable -> its value
          log,      \* variable -> what was recorded
          vals, told, \* for the rule: the values while historizing, what was answered to whom
          hist, fin
vars == <<conf, on, mode, value, log, vals, told, hist, fin>>
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
RandSub(S, n) == {x \in S : ~OneIn(n)}

Users == {"u1", "u2"}
Roles == {"r1", "r2"}
Vars == {"h1", "h2", "h3"}
Nodes == Vars \cup {"obj"}
Names == Nodes \cup {"none"}
Perms == {"browse", "write", "hist", "config"}
Val == [v |-> 0, st |-> "Good"]

---- (* the rule *)
May(u, n, p) == conf.roles[u] \cap conf.perm[n][p] # {}
(* the value that a write leads to, or why it is refused *)
Write(u, w) ==
  IF w.n = "none" \/ ~May(u, w.n, "browse") THEN [code |-> "BadNodeIDUnknown", v |-> Val]
  ELSE IF w.n \notin Vars THEN [code |-> "BadAttributeIDInvalid", v |-> Val]
  ELSE IF ~May(u, w.n, "write") THEN [code |-> "BadUserAccessDenied", v |-> Val]
  ELSE IF w.bad THEN [code |-> "BadTypeMismatch", v |-> Val]
  ELSE IF mode[w.n] = "reject" THEN [code |-> "BadOutOfRange", v |-> Val]
  ELSE [code |-> "Good", v |-> [v |-> IF mode[w.n] = "twice" THEN 2 * w.v ELSE w.v, st |-> w.st]]
Config(u, n, bad) ==
  IF n = "none" \/ ~May(u, n, "browse") THEN "BadNodeIDUnknown"
  ELSE IF n \notin Vars THEN "BadAttributeIDInvalid"
  ELSE IF ~May(u, n, "config") THEN "BadUserAccessDenied"
  ELSE IF bad THEN "BadTypeMismatch" ELSE "Good"
(* the nodes that the historian is asked about; it may know nodes that the server does not have *)
Denied(u, n) == IF n = "none" THEN "" ELSE IF ~May(u, n, "browse") THEN "BadNodeIDUnknown" ELSE IF ~May(u, n, "hist") THEN "BadUserAccessDenied" ELSE ""
Asked(u, ops) == SelectSeq(ops, LAMBDA o : Denied(u, o.n) = "")
(* raw values from a place on, at most max (0: all) *)
Raw(lg, o, max) ==
  IF o.n \notin Vars THEN [code |-> "BadHistoryOperationUnsupported", vals |-> <<>>, next |-> 0]
  ELSE LET m == Len(lg[o.n]) - o.from
           k == IF m < 0 THEN 0 ELSE IF max = 0 THEN m ELSE (IF m < max THEN m ELSE max)
       IN [code |-> IF k = 0 THEN "GoodNoData" ELSE "Good", vals |-> SubSeq(lg[o.n], o.from + 1, o.from + k), next |-> IF k > 0 /\ k < m THEN o.from + k ELSE 0]
Result(u, r, o) == IF Denied(u, o.n) # "" THEN [code |-> Denied(u, o.n), vals |-> <<>>, next |-> 0]
                   ELSE IF r.kind = "raw" /\ ~r.release THEN Raw(log, o, r.max)
                   ELSE [code |-> "Good", vals |-> <<>>, next |-> 0]
Answer(u, r) ==
  IF r.ops = <<>> \/ Len(r.ops) > MaxOps \/ r.ts = "neither" \/ ~conf.historian \/ r.kind = "none" THEN [fault |-> TRUE, codes |-> {}, ask |-> <<>>, res |-> <<>>]
  ELSE IF r.fail /\ Asked(u, r.ops) # <<>> THEN [fault |-> TRUE, codes |-> {}, ask |-> Asked(u, r.ops), res |-> <<>>]
  ELSE [fault |-> FALSE, codes |-> {}, ask |-> Asked(u, r.ops), res |-> [i \in 1..Len(r.ops) |-> Result(u, r, r.ops[i])]]

---- (* choices *)
RandPerm == [p \in Perms |-> RandSub(Roles, IF p = "browse" THEN 6 ELSE IF p = "hist" THEN 3 ELSE 4)]
RandConf == [roles |-> [u \in Users |-> RandSub(Roles, 3)], perm |-> [n \in Nodes |-> RandPerm], historian |-> ~OneIn(12), on |-> [n \in Vars |-> ~OneIn(3)], slow |-> OneIn(2)]
MCConf == {[roles |-> [u1 |-> {"r1"}, u2 |-> {"r1", "r2"}], perm |-> [n \in Nodes |-> [p \in Perms |-> IF p = "browse" THEN {"r1"} ELSE {"r2"}]], historian |-> TRUE, on |-> [n \in Vars |-> n = "h1"], slow |-> FALSE]}
RandW == [n |-> IF OneIn(9) THEN One(Names) ELSE One(Vars), v |-> One(1..99), st |-> IF OneIn(5) THEN "UncertainReferenceNotDeleted" ELSE "Good", bad |-> OneIn(12)]
RandOp == [n |-> IF OneIn(8) THEN One(Names) ELSE One(Vars), from |-> One({0, 0, 0, 1, 2, 5}), range |-> One({"", "", "1", "0:1"})]
RandReq == [kind |-> IF OneIn(2) THEN "raw" ELSE One({"raw", "modified", "processed", "attime", "event", "none"}), ops |-> [i \in 1..(IF OneIn(14) THEN One({0, 6, 7}) ELSE One(1..4)) |-> RandOp],
            max |-> One({0, 1, 2, 3, 10}), ts |-> IF OneIn(20) THEN "neither" ELSE One({"source", "server", "both"}), release |-> OneIn(8), fail |-> OneIn(15), a |-> One(1..9)]

---- (* actions *)
Add(r) == hist' = Append(hist, IF MC THEN 0 ELSE r)
Note(n, v) == /\ value' = [value EXCEPT ![n] = v]
              /\ log' = IF on[n] /\ conf.historian THEN [log EXCEPT ![n] = Append(@, v)] ELSE log
              /\ vals' = IF on[n] /\ conf.historian THEN [vals EXCEPT ![n] = Append(@, v)] ELSE vals
Init == /\ hist = <<>> /\ fin = FALSE /\ told = {}
        /\ conf \in (IF MC THEN MCConf ELSE {[roles |-> <<>>, on |-> [n \in Vars |-> FALSE]]})
        /\ on = conf.on /\ mode = [n \in Vars |-> "none"]
        /\ value = [n \in Vars |-> Val] /\ log = [n \in Vars |-> <<>>] /\ vals = [n \in Vars |-> <<>>]
Setup == ~MC /\ hist = <<>> /\ \E c \in {RandConf} : conf' = c /\ on' = c.on /\ Add([op |-> "conf", conf |-> c]) /\ UNCHANGED <<mode, value, log, vals, told, fin>>
(* the program sets a value *)
Set == \E n \in (IF MC THEN {"h1", "h2"} ELSE {One(Vars)}), v \in (IF MC THEN {1} ELSE {One(1..99)}) :
  /\ Note(n, [v |-> v, st |-> "Good"])
  /\ Add([op |-> "set", n |-> n, v |-> v, rec |-> on[n] /\ conf.historian])
  /\ UNCHANGED <<conf, on, mode, told, fin>>
(* a user writes *)
UWrite == \E u \in (IF MC THEN Users ELSE {One(Users)}), w \in (IF MC THEN {[n |-> "h1", v |-> 2, st |-> "Good", bad |-> FALSE]} ELSE {RandW}) :
  LET r == Write(u, w) IN
  /\ IF r.code = "Good" THEN Note(w.n, r.v) ELSE UNCHANGED <<value, log, vals>>
  /\ Add([op |-> "write", u |-> u, w |-> w, code |-> r.code, val |-> r.v, rec |-> r.code = "Good" /\ on[w.n] /\ conf.historian])
  /\ UNCHANGED <<conf, on, mode, told, fin>>
(* several write the same variable at the same time: some order; its history is that order, after which it has the last *)
Rush == ~MC /\ OneIn(3) /\ \E n \in {One(Vars)} :
  /\ conf.historian /\ on[n]
  /\ Add([op |-> "rush", n |-> n, vs |-> [i \in 1..One(2..5) |-> 100 * Len(hist) + i]])
  \* the order is not known: later histories of the behaviour ask for other variables, so stop recording it
  /\ on' = [on EXCEPT ![n] = FALSE]
  /\ value' = [value EXCEPT ![n] = Val] /\ log' = [log EXCEPT ![n] = <<>>] /\ vals' = [vals EXCEPT ![n] = <<>>]
  /\ UNCHANGED <<conf, mode, told, fin>>
Handler == \E n \in (IF MC THEN {"h1"} ELSE {One(Vars)}), m \in (IF MC THEN {"twice", "reject"} ELSE {One({"none", "twice", "reject"})}) :
  /\ (MC \/ OneIn(2)) /\ mode' = [mode EXCEPT ![n] = m]
  /\ Add([op |-> "handler", n |-> n, m |-> m])
  /\ UNCHANGED <<conf, on, value, log, vals, told, fin>>
(* a user, or the program, switches the recording *)
Switch == \E u \in (IF MC THEN Users ELSE {One(Users \cup {"program"})}), n \in (IF MC THEN {"h1", "h2"} ELSE {IF OneIn(9) THEN One(Names) ELSE One(Vars)}), b \in (IF MC THEN BOOLEAN ELSE {OneIn(2)}), bad \in (IF MC THEN {FALSE} ELSE {OneIn(10)}) :
  /\ u = "program" => n \in Vars /\ ~bad
  /\ LET c == IF u = "program" THEN "Good" ELSE Config(u, n, bad) IN
     /\ on' = IF c = "Good" THEN [on EXCEPT ![n] = b] ELSE on
     /\ Add([op |-> "switch", u |-> u, n |-> n, b |-> b, bad |-> bad, code |-> c])
  /\ UNCHANGED <<conf, mode, value, log, vals, told, fin>>
Read == \E u \in (IF MC THEN Users ELSE {One(Users)}), r \in (IF MC THEN {[kind |-> "raw", ops |-> <<[n |-> "h1", from |-> f, range |-> ""], [n |-> "h2", from |-> 0, range |-> ""]>>, max |-> m, ts |-> "both", release |-> FALSE, fail |-> FALSE, a |-> 1] : f \in {0, 1}, m \in {0, 1}} ELSE {RandReq}) :
  LET a == Answer(u, r) IN
  /\ told' = IF MC THEN told \cup {<<u, r.ops[i].n, a.res[i].vals, vals[r.ops[i].n]>> : i \in {i \in 1..Len(a.res) : a.res[i].vals # <<>>}} ELSE told
  /\ Add([op |-> "read", u |-> u, r |-> r, want |-> a])
  /\ UNCHANGED <<conf, on, mode, value, log, vals, fin>>
(* a whole history read page by page *)
Pages == ~MC /\ OneIn(2) /\ \E u \in {One(Users)}, n \in {One(Vars)}, m \in {One(1..4)} :
  /\ conf.historian
  /\ Add([op |-> "pages", u |-> u, n |-> n, max |-> m, code |-> Denied(u, n), vals |-> IF Denied(u, n) = "" THEN log[n] ELSE <<>>])
  /\ UNCHANGED <<conf, on, mode, value, log, vals, told, fin>>
Next == \/ Setup
        \/ (MC \/ hist # <<>>) /\ Len(hist) < Steps /\ (Set \/ UWrite \/ Rush \/ Handler \/ Switch \/ Read \/ Pages)
        \/ ~MC /\ hist # <<>> /\ Len(hist) < Steps /\ (Set \/ UWrite \/ Read)
        \/ Len(hist) = Steps /\ ~MC /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<conf, on, mode, value, log, vals, told, hist>>
Emit == fin => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
(* the recorded history is the history of the values *)
Faithful == \A n \in Vars : log[n] = vals[n]
(* what is told of a history is a part of it, to users who may read it *)
Told == \A t \in told : /\ \E x \in conf.roles[t[1]] : x \in conf.perm[t[2]]["hist"]
                        /\ \E i, j \in 1..Len(t[4]) : t[3] = SubSeq(t[4], i, j)
=============================================================================
