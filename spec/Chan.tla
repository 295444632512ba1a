-------------------------------- MODULE Chan --------------------------------
(* The secure channel between a client and the server: opening, messages in chunks, token renewal and expiry, limits,
   and an attacker who alters, replays, reorders, injects and cuts. A behaviour is a sequence of what arrives at the
   server, with the effect the specification allows. The effect of a write request is observed in the variable it writes.
   Profiles: sec (C01), frame (C02), token (C03). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES conf, open, toks, cur, pend, val, now, hist
vars == <<conf, open, toks, cur, pend, val, now, hist>>
Profile == IOEnv.CHAN_PROFILE
Bound == IF "MC_STEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_STEPS) ELSE 0
MC == Bound > 0
Steps == 26

\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
Pick(S) == IF MC THEN S ELSE {One(S)}
SecPols == {"Basic128Rsa15-S", "Basic128Rsa15-E", "Basic256-S", "Basic256-E", "Basic256Sha256-S", "Basic256Sha256-E",
            "Aes128-S", "Aes128-E", "Aes256-S", "Aes256-E"}
Pols == {"None"} \cup SecPols
Secure == conf.pol # "None"
Enc == conf.pol \in {p \in SecPols : \E q \in {"Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"} : p = q \o "-E"}

(* token lifetimes in seconds *)
MinLife == 300   MaxLife == 3600
Revised(l) == IF l < MinLife THEN MinLife ELSE IF l > MaxLife THEN MaxLife ELSE l
Lives == {0, 1, 299, 300, 301, 777, 3600, 3601, 100000, 4000000}

Step(r) == hist' = Append(hist, r @@ [val |-> val'.k, len |-> val'.len, t |-> now'])
Same == UNCHANGED <<toks, cur, pend>>
Gone == open' = FALSE /\ Same

---- (* opening *)
GoodOpen == \E l \in Pick(IF MC THEN {300} ELSE Lives) :
   /\ open' = TRUE /\ toks' = <<now + Revised(l)>> /\ cur' = 1 /\ pend' = 0
   /\ UNCHANGED <<conf, val, now>>
   /\ Step([op |-> "open", mut |-> "none", life |-> l, wlife |-> Revised(l), want |-> "ok"])
(* openings that must be refused *)
BadOpens == {"modeNone", "modeInvalid", "unknownPolicy", "smallBuffers", "tinyBuffers", "noHello", "msgFirst", "junkFirst", "badCert", "wrongBody", "nonFinal", "emptyBody"}
            \cup (IF Secure THEN {"ecdsaCert", "noCert", "badSig", "otherKey", "shortCipher", "flipCipher", "sigOnly", "padding"} ELSE {"noneSign", "noneSignCert"})
BadOpen == \E m \in Pick(BadOpens) :
   /\ ~open /\ Gone /\ UNCHANGED <<conf, val, now>>
   /\ Step([op |-> "open", mut |-> m, life |-> 600, wlife |-> 0, want |-> "closed"])
(* a discovery channel (policy None although no such endpoint is configured) gives no access *)
Discovery == /\ ~conf.none /\ Gone /\ UNCHANGED <<conf, val, now>>
             /\ Step([op |-> "discovery", mut |-> "none", want |-> "closed"])

---- (* requests *)
(* what a write may suffer *)
Tamper == {"badChannel", "badToken", "oldToken", "seqSkip", "seqSame", "seqBack", "seqZero", "replay", "replayAll", "reqMix", "opnMid", "opnBody", "opnNone", "opnInMsg", "tooLong", "short", "shorter", "lenZero", "lenHuge", "badType", "replayOld", "expiredPend"}
TamperSec == {"flipBody", "flipSig", "flipHeader", "trunc", "unsigned", "oldKeys", "zeroKeys", "serverKeys", "reflect"}
TamperEnc == {"padHuge", "padBody", "notBlock"}
Muts == Tamper \cup (IF Secure THEN TamperSec ELSE {}) \cup (IF Enc THEN TamperEnc ELSE {})
Possible(m, n) == CASE m \in {"reqMix", "opnMid"} -> n > 1 [] m \in {"oldToken", "oldKeys"} -> cur > 1 /\ Len(toks) > 1
                    [] m \in {"replay", "replayAll"} -> \E i \in 1..Len(hist) : hist[i].op = "write" /\ hist[i].want = "ok"
                    [] m = "replayOld" -> \E i \in 1..Len(hist) : hist[i].op = "write" /\ hist[i].want = "ok"
                    [] m = "expiredPend" -> pend # 0 /\ now > toks[pend]
                    [] m = "seqBack" -> Len(hist) > 4 [] OTHER -> TRUE
Lens == IF MC THEN {10} ELSE IF Profile = "frame" THEN {0, 1, 10, 100, 5000, 7000, 8000, 8100, 8192, 9000, 16384, 20000, 30000, 50000} ELSE {10, 3000, 9000}
(* limits of requests: B bytes of a chunk, M bytes of a message, C chunks; overhead at most 400 *)
ReqFits(l, n) == /\ conf.M = 0 \/ l + 400 <= conf.M
                 /\ conf.C = 0 \/ n <= conf.C
                 /\ (l + 400) \div n + 100 <= conf.B
ReqTooBig(l, n) == (conf.M > 0 /\ l > conf.M) \/ (conf.C > 0 /\ n > conf.C)
NewVal == [k |-> val.k + 1, len |-> 0]
Sizes == {x \in Lens \X (IF MC THEN {1, 2} ELSE 1..7) : (ReqFits(x[1], x[2]) \/ ReqTooBig(x[1], x[2])) /\ (x[1] + 400) \div x[2] + 100 <= conf.B}
Write == \E x \in Pick(IF ~MC /\ OneIn(2) THEN {y \in Sizes : ReqFits(y[1], y[2])} ELSE Sizes) : \E tok \in Pick(IF pend # 0 /\ now < toks[pend] THEN {"cur", "pend"} ELSE {"cur"}) : LET l == x[1] n == x[2] IN
   /\ UNCHANGED <<conf, now>>
   /\ IF ReqTooBig(l, n) THEN Gone /\ val' = val /\ Step([op |-> "write", k |-> val.k + 1, l |-> l, n |-> n, tok |-> tok, mut |-> "none", at |-> 1, frag |-> 0, want |-> "closed"])
      ELSE /\ open' = TRUE /\ toks' = toks
           /\ cur' = (IF tok = "pend" THEN pend ELSE cur) /\ pend' = (IF tok = "pend" THEN 0 ELSE pend)
           /\ val' = [k |-> val.k + 1, len |-> l]
           /\ Step([op |-> "write", k |-> val.k + 1, l |-> l, n |-> n, tok |-> tok, mut |-> "none", at |-> 1, frag |-> IF MC THEN 0 ELSE One({0, 0, 1, 3, 7, 8, 9, 100}), want |-> "ok"])
BadWrite == \E n \in Pick({x \in 1..3 : ReqFits(10, x)}) : \E m \in Pick(IF ~MC /\ Possible("expiredPend", n) /\ OneIn(2) THEN {"expiredPend"} ELSE {x \in Muts : Possible(x, n)}) : \E at \in Pick(1..n) :
   /\ Gone /\ val' = val /\ UNCHANGED <<conf, now>>
   /\ Step([op |-> "write", k |-> val.k + 1, l |-> 10, n |-> n, tok |-> "cur", mut |-> m, at |-> at, frag |-> 0, want |-> "closed"])
(* an aborted message has no effect; the channel may go on or be closed *)
Abort == \E n \in Pick({x \in 1..3 : ReqFits(10, x)}) : Gone /\ val' = val /\ UNCHANGED <<conf, now>>
   /\ Step([op |-> "write", k |-> val.k + 1, l |-> 10, n |-> n, tok |-> "cur", mut |-> "abort", at |-> n, frag |-> 0, want |-> "any"])

(* limits of responses *)
Min(a, b) == IF a < b THEN a ELSE b
ResFits(l) == /\ conf.mm = 0 \/ l + 400 <= conf.mm
              /\ conf.mc = 0 \/ l + 400 <= conf.mc * (Min(conf.R, conf.SB) - 100)
ResTooBig(l) == (conf.mm > 0 /\ l > conf.mm) \/ (conf.mc > 0 /\ l > conf.mc * conf.R)
CanRead == ResFits(val.len) \/ ResTooBig(val.len)
Read == /\ CanRead
        /\ open' = TRUE /\ Same /\ val' = val /\ UNCHANGED <<conf, now>>
        /\ Step([op |-> "read", want |-> IF ResFits(val.len) THEN "ok" ELSE "BadResponseTooLarge"])
(* several requests in one burst, in any segmentation *)
Pipe == \E n \in Pick({2, 5, 9}) : /\ ResFits(10) /\ open' = TRUE /\ Same /\ val' = [k |-> val.k + n, len |-> 10] /\ UNCHANGED <<conf, now>>
        /\ Step([op |-> "pipe", n |-> n, frag |-> IF MC THEN 0 ELSE One({0, 1, 5, 8, 24, 333}), want |-> "ok"])

---- (* tokens *)
BadRenews == {"issue", "otherPolicy", "otherMode", "badChannel", "unknownPolicy", "seqSkip", "seqSame"} \cup (IF Secure THEN {"nonePolicy", "otherCert", "badSig", "replayRenew", "flipCipher"} ELSE {})
Renew == \E l \in Pick(IF MC THEN {300} ELSE Lives) :
   /\ open' = TRUE /\ toks' = Append(toks, now + Revised(l)) /\ cur' = cur /\ pend' = Len(toks) + 1 /\ val' = val /\ UNCHANGED <<conf, now>>
   /\ Step([op |-> "renew", mut |-> "none", life |-> l, wlife |-> Revised(l), want |-> "ok"])
BadRenew == \E m \in Pick({x \in BadRenews : x = "replayRenew" => Len(toks) > 1}) : /\ Gone /\ val' = val /\ UNCHANGED <<conf, now>>
   /\ Step([op |-> "renew", mut |-> m, life |-> 600, wlife |-> 0, want |-> "closed"])
(* the new token is used while a long notification is being sent under the old one *)
Stall == /\ pend # 0 /\ now < toks[pend] - 2 /\ now < toks[cur] - 2 /\ conf.mm = 0 /\ conf.mc = 0 /\ cur' = pend /\ pend' = 0 /\ toks' = toks /\ open' = TRUE /\ val' = [k |-> val.k + 1, len |-> 10]
         /\ now' = now + 1 /\ UNCHANGED conf
         /\ Step([op |-> "stall", k |-> val.k + 1, want |-> "ok"])

---- (* time, in seconds *)
Waits == IF MC THEN {150, 301} ELSE {1, 60, 299, 1000} \cup {toks[cur] - now - 1, toks[cur] - now + 1} \cup (IF pend # 0 THEN {toks[pend] - now - 1, toks[pend] - now + 1} ELSE {})
(* the session is not to expire *)
LastUse == LET T == {hist[i].t : i \in {j \in 1..Len(hist) : hist[j].op \in {"open", "write", "read", "pipe", "stall"} /\ hist[j].want = "ok"}} IN CHOOSE x \in T : \A y \in T : y <= x
CanWait == hist = <<>> \/ hist[Len(hist)].op # "wait"
Wait == \E d \in Pick({w \in Waits : w > 0 /\ now + w - LastUse < 3590 /\ now + w # toks[cur] /\ (pend # 0 => now + w # toks[pend])}) :
   /\ CanWait
   /\ now' = now + d /\ val' = val /\ UNCHANGED <<conf, toks, cur, pend>>
   /\ open' = (now' < toks[cur])
   /\ Step([op |-> "wait", d |-> d, want |-> IF now' < toks[cur] THEN "ok" ELSE "closed"])
Close == /\ Gone /\ val' = val /\ UNCHANGED <<conf, now>> /\ Step([op |-> "close", want |-> "closed"])

---- (* behaviours *)
RandConf == [pol |-> One(Pols), none |-> One(BOOLEAN), B |-> One({8192, 10000, 65535}), SB |-> 0, M |-> IF Profile = "frame" THEN One({0, 10000, 40000}) ELSE 0, C |-> IF Profile = "frame" THEN One({0, 2, 4}) ELSE 0,
             R |-> One({8192, 9001, 65535}), S |-> One({8192, 65535, 200000}), mm |-> IF Profile = "frame" THEN One({0, 12000, 30000}) ELSE 0, mc |-> IF Profile = "frame" THEN One({0, 1, 2, 3}) ELSE 0]
MCConf == [pol |-> "Basic256Sha256-E", none |-> TRUE, B |-> 8192, SB |-> 8192, M |-> 0, C |-> 0, R |-> 8192, S |-> 8192, mm |-> 0, mc |-> 0]
Fix(c) == [c EXCEPT !.none = (c.pol = "None") \/ c.none, !.B = IF c.S < c.B THEN c.S ELSE c.B]
Init == conf = MCConf /\ open = FALSE /\ toks = <<>> /\ cur = 0 /\ pend = 0 /\ val = [k |-> 0, len |-> 0] /\ now = 0 /\ hist = <<>>
Setup == \E c \in {RandConf} : conf' = [Fix(c) EXCEPT !.SB = c.B] /\ UNCHANGED <<open, toks, cur, pend, val, now>> /\ Step([op |-> "setup", want |-> "ok"])
Act == IF MC THEN (IF open THEN Write \/ BadWrite \/ Renew \/ BadRenew \/ Wait \/ Read ELSE GoodOpen \/ BadOpen)
       ELSE IF hist = <<>> THEN Setup
       ELSE LET r == One(1..100) IN
       IF ~open THEN (IF r <= (IF Profile = "sec" THEN 35 ELSE 10) THEN BadOpen ELSE IF r <= 40 /\ ~conf.none THEN Discovery ELSE GoodOpen)
       ELSE CASE Profile = "sec" -> IF r <= 35 \/ (r <= 45 /\ ~CanRead) THEN Write ELSE IF r <= 45 THEN Read ELSE IF r <= 55 THEN Renew ELSE IF r <= 65 THEN BadRenew ELSE IF r <= 92 THEN BadWrite ELSE IF r <= 96 THEN Abort ELSE Close
              [] Profile = "frame" -> IF r <= 55 \/ (r <= 85 /\ ~CanRead) THEN Write ELSE IF r <= 85 THEN Read ELSE IF r <= 92 THEN Pipe ELSE IF r <= 96 THEN Abort ELSE IF r <= 98 THEN Renew ELSE Close
              [] OTHER -> IF r <= 30 THEN Renew ELSE IF r <= 55 \/ ~CanRead THEN Write ELSE IF r <= 65 THEN Read ELSE IF r <= 85 /\ CanWait /\ now - LastUse < 3500 THEN Wait ELSE IF r <= 90 THEN BadWrite ELSE IF pend # 0 /\ now < toks[pend] - 2 /\ now < toks[cur] - 2 THEN Stall ELSE Pipe
Next == Len(hist) < (IF MC THEN Bound ELSE Steps) /\ Act

---- (* the property, over the history *)
(* the variable changes only by an unaltered request of the client on an open channel under a token that is valid *)
Sound == \A i \in 2..Len(hist) :
   /\ hist[i].val # hist[i - 1].val => hist[i].op \in {"write", "pipe", "stall"} /\ hist[i].want = "ok" /\ (hist[i].op = "write" => hist[i].mut = "none")
   /\ hist[i].op \in {"write", "read", "pipe", "renew"} /\ hist[i].want = "ok" =>
        \E j \in 1..(i - 1) : /\ hist[j].op = "open" /\ hist[j].want = "ok"
                              /\ \A k \in (j + 1)..(i - 1) : hist[k].want # "closed"
                              /\ \E x \in j..(i - 1) : hist[x].op \in {"open", "renew"} /\ hist[x].want = "ok" /\ hist[i].t < hist[x].t + hist[x].wlife
View == IF MC THEN <<open, toks, cur, pend, val, now, Len(hist), IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>> ELSE vars
Emit == MC \/ Len(hist) < Steps \/ PrintT("CASE " \o ToJson([conf |-> conf, steps |-> hist]))
=============================================================================
