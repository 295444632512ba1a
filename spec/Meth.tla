-------------------------------- MODULE Meth --------------------------------
(* The Call service: which method runs, for whom, how often, and what its caller receives.  M01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC_STEPS" \in DOMAIN IOEnv
Steps == IF MC THEN atoi(IOEnv.MC_STEPS) ELSE 30
MaxOps == 4                                     \* the server's limit of operations per call
VARIABLES conf,     \* per behaviour: roles of the users, permissions of the nodes, executable methods
          handler,  \* method -> 0 (none) or the number of its handler
          alive,    \* the nodes that exist
          runs,     \* for the rule: what ran, <<user, object, method, handler, argument>>
          hist, fin
vars == <<conf, handler, alive, runs, hist, fin>>
\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
RandSub(S, n) == {x \in S : ~OneIn(n)}

Users == {"u1", "u2"}
Roles == {"r1", "r2"}
Objects == {"o1", "o2", "ot"}                   \* two objects and a type of objects
Methods == {"m1", "m2", "m3", "m4"}
Others == {"var", "none", "view", "mt"}         \* a variable, nothing, a view, a type of variables
Nodes == Objects \cup Methods \cup {"var", "view", "mt"}

---- (* the rule *)
Grants(c, n) == IF c.perm[n].own THEN c.perm[n] ELSE c.default
May(c, u, n, p) == c.roles[u] \cap Grants(c, n)[p] # {}
Sees(c, u, n) == n \in alive /\ May(c, u, n, "browse")
(* what an operation leads to: a status, or the run of a handler *)
Decide(c, u, o) ==
  IF ~Sees(c, u, o.obj) THEN <<"BadNodeIDUnknown">>
  ELSE IF o.obj \notin Objects THEN <<"BadNodeClassInvalid">>
  ELSE IF ~Sees(c, u, o.meth) THEN <<"BadMethodInvalid">>
  ELSE IF o.meth \notin Methods THEN <<"BadMethodInvalid", "BadAttributeIDInvalid">>
  ELSE IF ~c.exec[o.meth] THEN <<"BadNotExecutable", "BadUserAccessDenied">>
  ELSE IF ~May(c, u, o.meth, "call") THEN <<"BadUserAccessDenied">>
  ELSE IF handler[o.meth] = 0 THEN <<"BadNotImplemented">>
  ELSE <<"run">>
Result(c, u, o) == LET d == Decide(c, u, o) IN IF d = <<"run">> THEN [run |-> handler[o.meth], codes |-> <<o.st>>] ELSE [run |-> 0, codes |-> d]
Answer(c, u, ops) == IF ops = <<>> THEN [fault |-> "BadNothingToDo", res |-> <<>>]
                     ELSE IF Len(ops) > MaxOps THEN [fault |-> "BadTooManyOperations", res |-> <<>>]
                     ELSE [fault |-> "", res |-> [i \in 1..Len(ops) |-> Result(c, u, ops[i])]]
Ran(u, ops, ans) == IF ans.fault # "" THEN <<>> ELSE SelectSeq([i \in 1..Len(ops) |-> <<u, ops[i].obj, ops[i].meth, ans.res[i].run, ops[i].a>>], LAMBDA r : r[4] # 0)

---- (* choices *)
RandPerm == [own |-> ~OneIn(3), browse |-> RandSub(Roles, 6), call |-> RandSub(Roles, 3)]
RandConf == [roles |-> [u \in Users |-> One(SUBSET Roles)], perm |-> [n \in Nodes |-> IF n \in Methods THEN RandPerm ELSE [RandPerm EXCEPT !.browse = RandSub(Roles, 9)]],
             default |-> [browse |-> RandSub(Roles, 4), call |-> RandSub(Roles, 3)], exec |-> [m \in Methods |-> ~OneIn(6)], workers |-> One({2, 3, 8})]
MCConf == {[roles |-> [u1 |-> {"r1"}, u2 |-> {"r1", "r2"}], perm |-> [n \in Nodes |-> [own |-> n \in Methods, browse |-> {"r1"}, call |-> {"r2"}]], default |-> [browse |-> Roles, call |-> {}], exec |-> [m \in Methods |-> m # "m2"], workers |-> 8]}
RandOp(slow) == [obj |-> IF OneIn(7) THEN One(Others \cup Methods) ELSE One(Objects), meth |-> IF OneIn(8) THEN One(Others \cup Objects) ELSE One(Methods),
                 a |-> One(0..9), n |-> One({0, 1, 1, 2, 5}), d |-> IF slow THEN One({0, 7, 20, 50}) ELSE 0, st |-> IF OneIn(4) THEN One({"BadOutOfRange", "BadInvalidArgument", "UncertainReferenceNotDeleted"}) ELSE "Good"]
RandOps(slow) == [i \in 1..(IF OneIn(14) THEN One({0, 5, 9}) ELSE One(1..4)) |-> RandOp(slow)]
RandCalls == [i \in 1..One(2..4) |-> [u |-> One(Users), ops |-> RandOps(TRUE)]]

---- (* actions *)
Add(r) == hist' = Append(hist, IF MC THEN 0 ELSE r)
Init == /\ hist = <<>> /\ fin = FALSE /\ runs = <<>>
        /\ conf \in (IF MC THEN MCConf ELSE {[roles |-> <<>>]})
        /\ handler \in (IF MC THEN {[m \in Methods |-> 1]} ELSE {[m \in Methods |-> 1]})
        /\ alive = Nodes
Setup == ~MC /\ hist = <<>> /\ \E c \in {RandConf} : conf' = c /\ Add([op |-> "conf", conf |-> c]) /\ UNCHANGED <<handler, alive, runs, fin>>
Call == \E u \in (IF MC THEN Users ELSE {One(Users)}), ops \in (IF MC THEN {<<[obj |-> o, meth |-> m, a |-> 1, n |-> 1, d |-> 0, st |-> "Good"]>> : o \in {"o1", "var"}, m \in {"m1", "m2"}} ELSE {RandOps(FALSE)}) :
  LET ans == Answer(conf, u, ops) IN
  /\ runs' = runs \o Ran(u, ops, ans)
  /\ Add([op |-> "call", calls |-> <<[u |-> u, ops |-> ops, want |-> ans]>>])
  /\ UNCHANGED <<conf, handler, alive, fin>>
(* several at the same time: each answered as if it were alone *)
Calls == ~MC /\ \E cs \in {RandCalls} :
  /\ Add([op |-> "calls", calls |-> [i \in 1..Len(cs) |-> [u |-> cs[i].u, ops |-> cs[i].ops, want |-> Answer(conf, cs[i].u, cs[i].ops)]]])
  /\ UNCHANGED <<conf, handler, alive, runs, fin>>
(* the caller leaves before its answer *)
Leave == ~MC /\ OneIn(3) /\ \E u \in {One(Users)}, ops \in {RandOps(TRUE)} :
  /\ Add([op |-> "leave", calls |-> <<[u |-> u, ops |-> ops, want |-> Answer(conf, u, ops)]>>])
  /\ UNCHANGED <<conf, handler, alive, runs, fin>>
Handler == \E m \in (IF MC THEN {"m1"} ELSE {One(Methods)}), h \in (IF MC THEN {0, 2} ELSE {IF OneIn(4) THEN 0 ELSE Len(hist)}) :
  /\ handler' = [handler EXCEPT ![m] = h]
  /\ Add([op |-> "handler", m |-> m, h |-> h])
  /\ UNCHANGED <<conf, alive, runs, fin>>
Delete == \E n \in (IF MC THEN {"m1", "o1"} ELSE {One(Methods \cup {"o1", "o2"})}) :
  /\ n \in alive /\ (MC \/ OneIn(3)) /\ alive' = alive \ {n}
  /\ Add([op |-> "delete", n |-> n])
  /\ UNCHANGED <<conf, handler, runs, fin>>
(* a new node in its place: a method without handler *)
Create == \E n \in (IF MC THEN Nodes ELSE Nodes) \ alive :
  /\ alive' = alive \cup {n}
  /\ handler' = IF n \in Methods THEN [handler EXCEPT ![n] = 0] ELSE handler
  /\ Add([op |-> "create", n |-> n])
  /\ UNCHANGED <<conf, runs, fin>>
Next == \/ Setup
        \/ (MC \/ hist # <<>>) /\ Len(hist) < Steps /\ (Call \/ Calls \/ Leave \/ Handler \/ Delete \/ Create)
        \/ ~MC /\ hist # <<>> /\ Len(hist) < Steps /\ (Call \/ Calls)
        \/ Len(hist) = Steps /\ ~MC /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<conf, handler, alive, runs, hist>>
Emit == fin => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
(* only executable methods run, only for users with the permission to call them, and only with a handler *)
Permitted == \A r \in Range(runs) : /\ r[2] \in Objects /\ r[3] \in Methods /\ conf.exec[r[3]] /\ r[4] # 0
                                    /\ \E x \in conf.roles[r[1]] : x \in Grants(conf, r[3]).call
                                    /\ \E x \in conf.roles[r[1]] : x \in Grants(conf, r[2]).browse
=============================================================================
