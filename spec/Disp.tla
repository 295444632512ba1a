-------------------------------- MODULE Disp --------------------------------
(* The server's dispatch of requests: every request gets exactly one answer, of its kind or a fault, with as many results
   as operations, within the operation limits; and the diagnostics that count them.
   Profiles (CODEC_PROFILE): disp (D01: random requests of all kinds, made by the generator of Codec), diag (G01: requests
   with known outcome, and the counters). *)
EXTENDS Codec

VARIABLES conf, sess, subs, cnt, rej, fin
dvars == <<seed, hist, conf, sess, subs, cnt, rej, fin>>
Rnd(S) == RandomElement(S)
Steps == IF Profile = "disp" THEN 40 ELSE 30

(* services: the member that lists the operations, the member of the answer that lists the results, the limit that applies *)
Svc == [Read |-> "read", Write |-> "write", Browse |-> "browse", BrowseNext |-> "browse", TranslateBrowsePathsToNodeIds |-> "translate", RegisterNodes |-> "register", UnregisterNodes |-> "register",
        HistoryRead |-> "history", Call |-> "call", CreateMonitoredItems |-> "items", ModifyMonitoredItems |-> "items", SetMonitoringMode |-> "items", DeleteMonitoredItems |-> "items",
        SetPublishingMode |-> "", DeleteSubscriptions |-> "", SetTriggering |-> ""]
OpsOf == [Read |-> "NodesToRead", Write |-> "NodesToWrite", Browse |-> "NodesToBrowse", BrowseNext |-> "ContinuationPoints", TranslateBrowsePathsToNodeIds |-> "BrowsePaths", RegisterNodes |-> "NodesToRegister",
          UnregisterNodes |-> "NodesToUnregister", HistoryRead |-> "NodesToRead", Call |-> "MethodsToCall", CreateMonitoredItems |-> "ItemsToCreate", ModifyMonitoredItems |-> "ItemsToModify",
          SetMonitoringMode |-> "MonitoredItemIds", DeleteMonitoredItems |-> "MonitoredItemIds", SetPublishingMode |-> "SubscriptionIds", DeleteSubscriptions |-> "SubscriptionIds"]
Others == {"FindServers", "GetEndpoints", "CreateSession", "ActivateSession", "CreateSubscription", "ModifySubscription", "Republish", "SetTriggering", "Cancel"}
NoSession == {"FindServers", "GetEndpoints", "CreateSession"}
Unsupported == {"FindServersOnNetwork", "RegisterServer", "RegisterServer2", "AddNodes", "AddReferences", "DeleteNodes", "DeleteReferences", "QueryFirst", "QueryNext", "HistoryUpdate", "TransferSubscriptions"}
Limits == {"read", "write", "browse", "translate", "register", "history", "call", "items"}

DInit == /\ seed = <<>> /\ hist = <<>> /\ fin = FALSE
         \* TLC makes the initial states once: it then begins with any of these
         /\ conf \in {[limits |-> f] : f \in {[l \in Limits |-> Rnd(IF x > 0 THEN 1..6 ELSE {})] : x \in 1..60}}
         /\ sess = <<TRUE>> /\ subs = <<>> /\ cnt = [x \in {} |-> 0] /\ rej = 0
Add(r) == hist' = Append(hist, r)

---- (* D01 *)
IndexOf(n, f) == CHOOSE i \in 1..Len(Schema[n]) : Schema[n][i][1] = f
Random == \E a \in {Rnd(0..46336)} : \E b \in {Rnd(0..46326)} : \E svc \in {Rnd(IF Rnd(1..6) = 1 THEN Unsupported \cup {"Unknown"} ELSE IF Rnd(1..3) = 1 THEN {"CreateMonitoredItems", "Read", "Browse", "Call", "HistoryRead", "Write"} ELSE DOMAIN OpsOf \cup Others)} :
  \E tok \in {IF Rnd(1..8) = 1 THEN Rnd({"none", "bogus"}) ELSE "session"} :
  LET n == svc \o "Request"  s == <<a, b>>
      v == IF svc = "Unknown" THEN <<>> ELSE GenStruct(n, H(s, 5), 3).v
      known == svc \in DOMAIN OpsOf
      k == IF known THEN Len(v[IndexOf(n, OpsOf[svc])]) ELSE 0
      lim == IF known /\ Svc[svc] # "" THEN conf.limits[Svc[svc]] ELSE 1000000
      \* the outcome: a fault with this status, or "fault", or "any" (an answer with k results if it is none)
      want == CASE svc \in Unsupported \cup {"Unknown"} -> "BadServiceUnsupported"
              [] svc \notin NoSession /\ tok # "session" -> "BadSessionIDInvalid"
              [] known /\ (k = 0 \/ k > lim) -> "fault"
              [] OTHER -> "any"
  IN /\ seed' = s
     /\ Add([op |-> "random", svc |-> svc, t |-> n, v |-> v, tok |-> tok, want |-> want, n |-> IF known /\ svc # "UnregisterNodes" THEN k ELSE -1, handle |-> Rnd({0, 1, 5, 65535, 77777}), burst |-> Rnd({FALSE, FALSE, TRUE})])
     /\ UNCHANGED <<conf, sess, subs, cnt, rej, fin>>
(* plain requests with a number of operations around the limit *)
Plain == \E svc \in {Rnd({x \in DOMAIN Svc : Svc[x] # ""})} : \E k \in {LET l == conf.limits[Svc[svc]] IN Rnd({0, 1, l, l + 1, l + 3} \cup (IF l > 1 THEN {l - 1} ELSE {}))} :
  /\ Add([op |-> "plain", svc |-> svc, k |-> k, want |-> IF k = 0 THEN "BadNothingToDo" ELSE IF k > conf.limits[Svc[svc]] THEN "BadTooManyOperations" ELSE IF svc = "HistoryRead" THEN "BadHistoryOperationUnsupported" ELSE "Good",
          n |-> IF svc = "UnregisterNodes" THEN -1 ELSE k, handle |-> Rnd({0, 1, 5, 65535, 77777})])
  /\ UNCHANGED <<seed, conf, sess, subs, cnt, rej, fin>>
(* every attribute of every node of the address space can be asked for *)
All == /\ \E lo \in {Rnd(0..29)} : Add([op |-> "all", lo |-> lo, of |-> 30])
       /\ UNCHANGED <<seed, conf, sess, subs, cnt, rej, fin>>
Finish == /\ Len(hist) >= Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<seed, hist, conf, sess, subs, cnt, rej>>
DNext == \/ Len(hist) < Steps /\ (IF Rnd(1..4) = 1 THEN Plain ELSE IF Rnd(1..15) = 1 THEN All ELSE Random)
         \/ Finish
DEmit == fin => PrintT("CASE " \o ToJson([limits |-> conf.limits, steps |-> hist]))
(* what the generator makes is of the type *)
DSound == hist # <<>> /\ hist[Len(hist)].op = "random" /\ hist[Len(hist)].svc # "Unknown" => LET r == hist[Len(hist)] IN Same(r.t, r.v)
=============================================================================
