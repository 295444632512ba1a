------------------------------- MODULE Client -------------------------------
(* The client: connecting to a server, calls and their answers, time limits, token renewal, and a server (or somebody in
   between) that answers late, twice, wrongly, altered or not at all. A behaviour is a sequence of what the application
   and the server do, with the results that the application's calls must return at each step.
   Profiles: call (K01), sec (K02), dial (K03). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES conf, up, calls, now, granted, hist
vars == <<conf, up, calls, now, granted, hist>>
Profile == IOEnv.CLIENT_PROFILE
Bound == IF "MC_STEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_STEPS) ELSE 0
MC == Bound > 0
Steps == 26

\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF MC \/ Len(hist) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
OneIn(n) == ~MC /\ Len(hist) >= 0 /\ RandomElement(1..n) = 1
Pick(S) == IF MC THEN S ELSE {One(S)}
Min(a, b) == IF a < b THEN a ELSE b
Pols == {"None", "Basic128Rsa15-S", "Basic128Rsa15-E", "Basic256-S", "Basic256-E", "Basic256Sha256-S", "Basic256Sha256-E", "Aes128-S", "Aes128-E", "Aes256-S", "Aes256-E"}
IsSign(p) == p \in {q \o "-S" : q \in {"Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"}}
Secure == conf.pol # "None"
Enc == Secure /\ ~IsSign(conf.pol)

(* calls[k] = [dl: latest time of return (ms), st: "wait" or how it ended] *)
Waiting == {k \in 1..Len(calls) : calls[k].st = "wait"}
Ends(D) == [k \in 1..Len(calls) |-> IF \E d \in D : d.c = k THEN [calls[k] EXCEPT !.st = (CHOOSE d \in D : d.c = k).res] ELSE calls[k]]
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.c <= y.c IN <<x>> \o Seq1(S \ {x})
(* a step r in which the calls of D return *)
Step(r, D) == hist' = Append(hist, r @@ [done |-> Seq1(D), t |-> now', up |-> up'])
All(res) == {[c |-> k, res |-> res] : k \in Waiting}
Down(r) == up' = FALSE /\ calls' = Ends(All("error")) /\ UNCHANGED <<conf, now, granted>> /\ Step(r, All("error"))

---- (* connecting *)
(* lifetimes of tokens, by the server's choice *)
Lives == IF MC THEN {100000} ELSE {3000, 8000, 100000}
GoodDial == \E life \in Pick(Lives) :
            /\ up' = TRUE /\ granted' = now + (life * 75) \div 100 /\ UNCHANGED <<conf, calls, now>>
            /\ \E m \in Pick(IF Profile = "sec" /\ ~MC THEN {"none", "none", "ackHuge", "fragments"} ELSE {"none"}) : Step([op |-> "dial", mut |-> m, want |-> "ok", life |-> life], {})
(* a server that does not play by the rules: connecting fails in time, and nothing is left behind *)
BadDials == {"refuse", "silentHello", "silentOpen", "silentSession", "silentActivate", "silentRead", "errHello", "ackSmall", "ackZero", "ackShort", "junkHello", "closeHello", "closeOpen", "closeSession", "closeActivate",
             "opnWrongBody", "opnFault", "msgFirst", "msgFirst2", "opnShort", "opnHuge", "opnNotFinal", "sessFault", "sessWrongType", "actFault", "actWrongType", "cancelHello", "cancelOpen", "cancelSession"}
            \cup (IF Secure THEN {"opnBadSig", "opnOtherCert", "opnNone", "opnFlip", "opnSigOnly", "opnPadding"} ELSE {})
(* faults that can only occur on the second connection (the first is for discovery, without security and session) *)
Only2 == {"silentSession", "silentActivate", "silentRead", "closeSession", "closeActivate", "sessFault", "sessWrongType", "actFault", "actWrongType", "cancelSession", "opnBadSig", "opnOtherCert", "opnNone", "opnFlip", "opnSigOnly", "opnPadding"}
BadDial == \E m \in Pick(BadDials) : /\ UNCHANGED <<conf, up, calls, granted>>
   /\ now' = now + 40000
   /\ Step([op |-> "dial", mut |-> m, conn |-> IF m \in Only2 THEN 2 ELSE One({1, 2}), want |-> "error"], {})

---- (* calls *)
Hints == {0, 500, 3000}
Ctxs == {0, 200, 1000, 20000}
Deadline(h, c) == LET d == now + (IF h = 0 THEN conf.hint ELSE h) IN IF c = 0 THEN d ELSE Min(d, now + c)
New(n, h, c) == [i \in 1..n |-> [dl |-> Deadline(h, c), st |-> IF up THEN "wait" ELSE "error"]]
Renewal == up /\ now > granted
Call == \E h \in Pick(IF MC THEN {500} ELSE Hints) : \E c \in Pick(IF MC THEN {0} ELSE Ctxs) : \E n \in Pick(IF MC THEN {1, 2} ELSE IF OneIn(6) THEN {2, 5, 33, 40, 70} ELSE {1}) : \E life \in Pick(Lives) :
   /\ calls' = calls \o New(n, h, c)
   /\ granted' = (IF Renewal THEN now + (life * 75) \div 100 ELSE granted)
   /\ UNCHANGED <<conf, up, now>>
   /\ Step([op |-> "call", want |-> IF up THEN "sent" ELSE "none", n |-> n, hint |-> h, ctx |-> c, len |-> IF MC THEN 10 ELSE One({10, 10, 10, 9000, 70000}), renew |-> Renewal, life |-> life],
           IF up THEN {} ELSE {[c |-> Len(calls) + i, res |-> "error"] : i \in 1..n})
(* the answer to a call, in any number of chunks *)
Answer == \E k \in Pick(Waiting) : \E how \in Pick(IF OneIn(2) \/ MC THEN {"value"} ELSE {"value", "fault", "badResult", "wrongType", "emptyFault"}) :
   LET res == CASE how = "value" -> "value" [] how \in {"fault", "badResult"} -> "BadTooManyOperations" [] OTHER -> "error" IN
   /\ up /\ UNCHANGED <<conf, up, now, granted>> /\ calls' = Ends({[c |-> k, res |-> res]})
   /\ Step([op |-> "answer", k |-> k, how |-> how, n |-> One({1, 1, 2, 3}), frag |-> One({0, 0, 1, 7, 100}), len |-> One({10, 10, 5000})], {[c |-> k, res |-> res]})
(* all waiting calls, in some order, in one go *)
AnswerAll == /\ up /\ Waiting # {} /\ UNCHANGED <<conf, up, now, granted>> /\ calls' = Ends(All("value"))
   /\ Step([op |-> "answerAll", order |-> One({"fifo", "lifo", "mixed"}), frag |-> One({0, 1, 333})], All("value"))
(* answers that nobody waits for are ignored *)
Ignored == \E m \in Pick({"unknown"} \cup {x \in {"late", "dup"} : \E k \in 1..Len(calls) : calls[k].st = (IF x = "late" THEN "timeout" ELSE "value")}) :
   /\ up /\ UNCHANGED <<conf, up, now, granted, calls>>
   /\ Step([op |-> "ignored", mut |-> m, k |-> IF m = "unknown" THEN 0 ELSE One({k \in 1..Len(calls) : calls[k].st = (IF m = "late" THEN "timeout" ELSE "value")})], {})
(* a request that the server does not accept, by its limits, is refused at once, nothing of it is sent, and the channel goes on *)
TooBig == \E life \in Pick(Lives) : /\ up /\ calls' = Append(calls, [dl |-> now, st |-> "error"]) /\ granted' = (IF Renewal THEN now + (life * 75) \div 100 ELSE granted) /\ UNCHANGED <<conf, up, now>>
   /\ Step([op |-> "call", want |-> "none", n |-> 1, hint |-> 0, ctx |-> 0, len |-> One({99990, 100001, 200000}), renew |-> Renewal, life |-> life], {[c |-> Len(calls) + 1, res |-> "error"]})
Cancel == \E k \in Pick(Waiting) : /\ UNCHANGED <<conf, up, now, granted>> /\ calls' = Ends({[c |-> k, res |-> "error"]})
   /\ Step([op |-> "cancel", k |-> k], {[c |-> k, res |-> "error"]})
Late(t) == {[c |-> k, res |-> "timeout"] : k \in {x \in Waiting : calls[x].dl < t}}
Waits == IF MC THEN {400, 600} ELSE {1, 100, 1000, 30000} \cup {calls[k].dl - now - 1 : k \in Waiting} \cup {calls[k].dl - now + 1 : k \in Waiting} \cup {granted - now + 1, granted - now - 1}
CanWait == hist = <<>> \/ hist[Len(hist)].op # "wait"
Wait == \E d \in Pick({w \in Waits : w > 0 /\ \A k \in Waiting : calls[k].dl # now + w}) :
   /\ now' = now + d /\ calls' = Ends(Late(now')) /\ UNCHANGED <<conf, up, granted>>
   /\ Step([op |-> "wait", d |-> d], Late(now'))
(* the connection breaks; the application closes the client *)
Drop == \E m \in Pick({"close", "errMessage", "close"}) : Down([op |-> "drop", mut |-> m])
Close == Down([op |-> "close"])
(* the server does not read what the client sends: the call ends in time all the same *)
Stall == \E h \in Pick({500, 3000}) : /\ Waiting = {} /\ now <= granted
   /\ up' = FALSE /\ now' = now + h + 1 /\ calls' = Append(calls, [dl |-> now + h, st |-> "error"]) /\ UNCHANGED <<conf, granted>>
   /\ Step([op |-> "stall", hint |-> h], {[c |-> Len(calls) + 1, res |-> "error"]})

---- (* what the client receives is not what its server sent *)
Tamper == {"badChannel", "badToken", "seqSkip", "seqSame", "seqBack", "swap", "reqMix", "short", "shorter", "lenZero", "lenHuge", "badType", "tooLong", "bodyShort", "bodyJunk", "unknownType", "tooBig", "tooMany", "ack", "opnMid", "opnBody"}
TamperSec == {"flipBody", "flipSig", "flipHeader", "trunc", "unsigned", "zeroKeys", "reflect", "clientKeys", "opnNone"}
TamperEnc == {"padHuge", "padBody", "notBlock"}
Muts == Tamper \cup (IF Secure THEN TamperSec ELSE {}) \cup (IF Enc THEN TamperEnc ELSE {})
BadAnswer == \E k \in Pick(Waiting) : \E m \in Pick(Muts) :
   /\ up
   /\ \E n \in {IF m \in {"swap", "reqMix", "opnMid"} THEN One({2, 3}) ELSE IF m \in {"tooBig", "tooMany"} THEN 1 ELSE One({1, 2})} :
      Down([op |-> "badAnswer", k |-> k, mut |-> m, n |-> n, at |-> One(1..n)])

---- (* choosing an endpoint, checking the server, presenting the user (dial) *)
Index(p) == CHOOSE i \in 0..10 : <<"None", "Basic128Rsa15-S", "Basic128Rsa15-E", "Basic256-S", "Basic256-E", "Basic256Sha256-S", "Basic256Sha256-E", "Aes128-S", "Aes128-E", "Aes256-S", "Aes256-E">>[i + 1] = p
UserTypes == {"anon", "user", "cert", "issued"}
TokPols == {"", "None", "Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"}
Base(p) == CASE p = "None" -> "None" [] p \in {"Basic128Rsa15-S", "Basic128Rsa15-E"} -> "Basic128Rsa15" [] p \in {"Basic256-S", "Basic256-E"} -> "Basic256"
             [] p \in {"Basic256Sha256-S", "Basic256Sha256-E"} -> "Basic256Sha256" [] p \in {"Aes128-S", "Aes128-E"} -> "Aes128" [] p \in {"Aes256-S", "Aes256-E"} -> "Aes256" [] OTHER -> "other"
(* an offer: endpoints with levels, one of them of a policy the client does not know; token policies *)
SessMuts == {"badSig", "noSig", "otherSig", "oldSig", "badCert", "noCert"}
Dial == \E offer \in {One(SUBSET Pols)} : \E lv \in {LET a == One(1..10) b == One(0..10) IN [p \in Pols |-> ((a * Index(p) + b) % 11) * 20]} : \E askp \in {One({"", "", "None", "Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"})} :
  \E askm \in {One({"", "S", "E", "N"})} : \E cert \in {One({TRUE, TRUE, TRUE, FALSE})} : \E user \in {One(UserTypes)} : \E toks \in {[u \in UserTypes |-> One({"", "", "absent", "None", "Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"})]} :
  \E mut \in {IF OneIn(3) THEN One(SessMuts) ELSE "none"} :
  LET M(p) == IF p = "None" THEN "N" ELSE IF IsSign(p) THEN "S" ELSE "E"
      wp == IF askp = "" /\ ~cert THEN "None" ELSE askp
      wm == IF askp = "" /\ ~cert THEN "N" ELSE askm
      cand == {p \in offer : (wp = "" \/ Base(p) = wp) /\ (wm = "" \/ M(p) = wm)}
      best == {p \in cand : \A q \in cand : lv[q] <= lv[p]}
      ep == CHOOSE p \in best : TRUE
      tp == toks[user]
      eff == IF tp = "" THEN Base(ep) ELSE tp
      refused == mut # "none" /\ ep # "None"
  IN /\ UNCHANGED <<conf, up, calls, granted>> /\ now' = now + 1000
     /\ Step([op |-> "connect", offer |-> offer, level |-> lv, askp |-> askp, askm |-> askm, cert |-> cert, user |-> user, toks |-> toks, mut |-> mut, pw |-> One({0, 1, 8, 60, 190, 214, 245, 300, 600}),
          nonce |-> One({32, 32, 64}), strange |-> One(BOOLEAN)] @@
          (IF cand = {} THEN [want |-> "error", ep |-> "none", tok |-> "none"]
           ELSE IF ep # "None" /\ ~cert THEN [want |-> "error", ep |-> "none", tok |-> "none"]
           ELSE IF refused THEN [want |-> "error", ep |-> ep, tok |-> "none"]
           ELSE IF tp = "absent" THEN [want |-> "error", ep |-> ep, tok |-> "none"]
           ELSE [want |-> "ok", ep |-> ep, tok |-> IF user = "anon" THEN "" ELSE eff]), {})

---- (* behaviours *)
Init == conf = [pol |-> "Basic256Sha256-E", hint |-> 2000, buf |-> 8192] /\ up = FALSE /\ calls = <<>> /\ now = 0 /\ granted = 0 /\ hist = <<>>
Setup == /\ conf' = [pol |-> One(Pols), hint |-> One({2000, 15000, 7000}), buf |-> One({8192, 10000, 65535})] /\ UNCHANGED <<up, calls, now, granted>> /\ Step([op |-> "setup"], {})
Act == IF MC THEN (IF up THEN Call \/ Answer \/ Drop \/ Wait \/ Cancel \/ BadAnswer ELSE GoodDial)
       ELSE IF hist = <<>> THEN Setup
       ELSE IF Profile = "dial" THEN Dial
       ELSE LET r == One(1..100) IN
       IF ~up THEN (IF Profile = "sec" /\ r <= 60 THEN BadDial ELSE IF calls # <<>> /\ r <= 75 THEN Call ELSE GoodDial)
       ELSE IF Profile = "call" THEN
              IF r <= 35 THEN Call ELSE IF r <= 55 /\ Waiting # {} THEN Answer ELSE IF r <= 63 /\ Waiting # {} THEN AnswerAll ELSE IF r <= 70 THEN Ignored ELSE IF r <= 75 /\ Waiting # {} THEN Cancel
              ELSE IF r <= 90 /\ CanWait THEN Wait ELSE IF r <= 92 THEN Drop ELSE IF r <= 94 THEN Close ELSE IF r <= 96 /\ Waiting = {} /\ now <= granted THEN Stall ELSE IF r <= 98 THEN TooBig ELSE Call
       ELSE IF r <= 35 THEN Call ELSE IF r <= 55 /\ Waiting # {} THEN Answer ELSE IF r <= 85 /\ Waiting # {} THEN BadAnswer ELSE IF r <= 90 THEN Ignored ELSE IF r <= 92 THEN Drop ELSE Call
Next == Len(hist) < (IF MC THEN Bound ELSE Steps) /\ Act

---- (* the properties, over the history *)
Ended(i) == {hist[i].done[j] : j \in 1..Len(hist[i].done)}
(* each call returns at most once; it returns a value only in a step that answers it rightly; no call waits beyond its time limit *)
Sound == /\ \A i, j \in 1..Len(hist) : i < j => \A a \in Ended(i), b \in Ended(j) : a.c # b.c
         /\ \A i \in 1..Len(hist) : \A a \in Ended(i) : a.res = "value" => (hist[i].op = "answer" /\ hist[i].k = a.c) \/ hist[i].op = "answerAll"
         /\ \A k \in Waiting : now <= calls[k].dl
         /\ ~up => Waiting = {}
View == IF MC THEN <<conf, up, calls, now, granted, Len(hist), IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>> ELSE vars
Emit == MC \/ Len(hist) < Steps \/ PrintT("CASE " \o ToJson([conf |-> conf, steps |-> hist]))
=============================================================================
