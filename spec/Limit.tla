-------------------------------- MODULE Limit --------------------------------
(* The limits that a server announces, and those that it enforces.  L01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC_STEPS" \in DOMAIN IOEnv
Steps == IF MC THEN atoi(IOEnv.MC_STEPS) ELSE 40
VARIABLES conf,     \* limit -> its value; 0: none
          sess,     \* the open sessions
          subs,     \* subscription -> its session
          cps,      \* session -> number of continuation points it holds
          next,     \* the next name of a session or subscription
          hist, fin
vars == <<conf, sess, subs, cps, next, hist, fin>>
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1

OpLimits == {"Read", "Write", "HistoryReadData", "HistoryReadEvents", "MethodCall", "Browse", "RegisterNodes", "Translate", "MonitoredItems"}
Lengths == {"String", "ByteString", "Array"}
Counts == {"Sessions", "Subscriptions", "Browses"}
Limits == OpLimits \cup Lengths \cup Counts
(* service -> the limit of its operations *)
LimitOf == [read |-> "Read", write |-> "Write", histdata |-> "HistoryReadData", histevent |-> "HistoryReadEvents", call |-> "MethodCall", browse |-> "Browse", browsenext |-> "Browse",
            register |-> "RegisterNodes", unregister |-> "RegisterNodes", translate |-> "Translate", create |-> "MonitoredItems", modify |-> "MonitoredItems", setmode |-> "MonitoredItems", delete |-> "MonitoredItems"]
Services == DOMAIN LimitOf
Main == 1                                       \* the session that uses the services, with a subscription

---- (* the rule *)
Within(limit, n) == conf[limit] = 0 \/ n <= conf[limit]
Ops(svc, n) == IF n = 0 THEN "BadNothingToDo" ELSE IF Within(LimitOf[svc], n) THEN "" ELSE "BadTooManyOperations"
Length(kind, n) == IF Within(kind, n) THEN "Good" ELSE "BadOutOfRange"
Room(limit, n) == Within(limit, n + 1)

---- (* actions *)
Add(r) == hist' = Append(hist, IF MC THEN 0 ELSE r)
RandConf == [l \in Limits |-> IF l = "Sessions" THEN One({0, 1, 2, 4}) ELSE IF l = "Subscriptions" THEN One({0, 1, 3, 5}) ELSE IF l = "Browses" THEN One({0, 1, 2, 3})
                              ELSE IF l \in Lengths THEN One({1, 2, 7, 30}) ELSE One({1, 2, 3, 5, 20})]
MCConf == [l \in Limits |-> IF l \in {"Sessions", "Subscriptions", "Browses"} THEN 2 ELSE 3]
Init == /\ conf = (IF MC THEN MCConf ELSE [l \in Limits |-> 0]) /\ sess = {Main} /\ subs = [x \in {2} |-> Main] /\ cps = [s \in {Main} |-> 0] /\ next = 3 /\ hist = <<>> /\ fin = FALSE
Setup == ~MC /\ hist = <<>> /\ \E c \in {RandConf} : conf' = c /\ Add([op |-> "conf", conf |-> c]) /\ UNCHANGED <<sess, subs, cps, next, fin>>
Announce == ~MC /\ OneIn(3) /\ Add([op |-> "announce"]) /\ UNCHANGED <<conf, sess, subs, cps, next, fin>>
Near(l) == LET c == conf[l] IN IF c = 0 THEN One({0, 1, 7, 50}) ELSE One({0, 1, c - 1, c, c, c + 1, c + 1, c + 5, 2 * c})
Use == \E svc \in (IF MC THEN {"read"} ELSE {One(Services)}) : \E n \in (IF MC THEN {0, 4} ELSE {Near(LimitOf[svc])}) :
  /\ Add([op |-> "ops", svc |-> svc, n |-> n, fault |-> Ops(svc, n)])
  /\ UNCHANGED <<conf, sess, subs, cps, next, fin>>
Write == ~MC /\ \E k \in {One(Lengths)} : \E n \in {Near(k)} : Add([op |-> "length", kind |-> k, n |-> n, code |-> Length(k, n)]) /\ UNCHANGED <<conf, sess, subs, cps, next, fin>>
OpenS == /\ IF Room("Sessions", Cardinality(sess)) THEN sess' = sess \cup {next} /\ cps' = (next :> 0) @@ cps ELSE UNCHANGED <<sess, cps>>
         /\ Add([op |-> "open", s |-> next, fault |-> IF Room("Sessions", Cardinality(sess)) THEN "" ELSE "BadTooManySessions"])
         /\ next' = next + 1 /\ UNCHANGED <<conf, subs, fin>>
CloseS == \E s \in sess \ {Main}, d \in BOOLEAN :
  /\ sess' = sess \ {s} /\ cps' = [x \in DOMAIN cps \ {s} |-> cps[x]]
  /\ subs' = IF d THEN [x \in {x \in DOMAIN subs : subs[x] # s} |-> subs[x]] ELSE subs
  /\ Add([op |-> "close", s |-> s, d |-> d])
  /\ UNCHANGED <<conf, next, fin>>
Sub == \E s \in sess :
  LET ok == Room("Subscriptions", Cardinality(DOMAIN subs)) IN
  /\ subs' = IF ok THEN (next :> s) @@ subs ELSE subs
  /\ Add([op |-> "sub", s |-> s, x |-> next, fault |-> IF ok THEN "" ELSE "BadTooManySubscriptions"])
  /\ next' = next + 1 /\ UNCHANGED <<conf, sess, cps, fin>>
DelSub == \E x \in DOMAIN subs \ {2} :
  /\ subs[x] \in sess
  /\ subs' = [y \in DOMAIN subs \ {x} |-> subs[y]]
  /\ Add([op |-> "delsub", s |-> subs[x], x |-> x])
  /\ UNCHANGED <<conf, sess, cps, next, fin>>
(* a browse of which more is left *)
More == \E s \in sess :
  LET ok == Room("Browses", cps[s]) IN
  /\ cps' = IF ok THEN [cps EXCEPT ![s] = @ + 1] ELSE cps
  /\ Add([op |-> "more", s |-> s, code |-> IF ok THEN "Good" ELSE "BadNoContinuationPoints"])
  /\ UNCHANGED <<conf, sess, subs, next, fin>>
(* the oldest of them is read to its end, or released *)
Done == \E s \in sess :
  /\ cps[s] > 0 /\ cps' = [cps EXCEPT ![s] = @ - 1]
  /\ Add([op |-> "done", s |-> s, rel |-> ~MC /\ OneIn(2)])
  /\ UNCHANGED <<conf, sess, subs, next, fin>>
Next == \/ Setup
        \/ (MC \/ hist # <<>>) /\ Len(hist) < Steps /\ (Announce \/ Use \/ Write \/ OpenS \/ CloseS \/ Sub \/ DelSub \/ More \/ Done)
        \/ ~MC /\ hist # <<>> /\ Len(hist) < Steps /\ (Use \/ Write \/ OpenS)
        \/ Len(hist) = Steps /\ ~MC /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<conf, sess, subs, cps, next, hist>>
Emit == fin => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
Bounded == /\ MC => Cardinality(sess) <= conf["Sessions"] /\ Cardinality(DOMAIN subs) <= conf["Subscriptions"]
           /\ MC => \A s \in sess : cps[s] <= conf["Browses"]
=============================================================================
