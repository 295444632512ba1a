-------------------------------- MODULE Sess --------------------------------
(* Sessions: creation, activation (with application and user authentication), binding to a secure channel, use,
   timeout and closing. A behaviour is a sequence of requests by clients on several channels, each with the
   outcome the specification demands. Profiles: "life" (N01, N02: lifecycle, all services), "auth" (N03).
   The state machine is generated from (simulation) and explored exhaustively (MC profile, MC_STEPS);
   the rules of the property are stated independently of the transition function, over the history (Sound). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES chs, ses, now, hist, conf
vars == <<chs, ses, now, hist, conf>>
Profile == IOEnv.SESS_PROFILE
Bound == IF "MC_STEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_STEPS) ELSE 0
MC == Bound > 0

Depth == 60
MaxSessions == 4
MinTmo == 10000   MaxTmo == 3600000   Purge == 5000
SecPols == {"Basic128Rsa15-S", "Basic128Rsa15-E", "Basic256-S", "Basic256-E", "Basic256Sha256-S", "Basic256Sha256-E",
            "Aes128-S", "Aes128-E", "Aes256-S", "Aes256-E"}
Pick(S) == IF MC THEN S ELSE {RandomElement(S)}
PolSet == IF MC THEN {"None", "Basic256Sha256-E"} ELSE {"None"} \cup SecPols
Certs == {"client1", "client2"}

(* every service that needs an active session, with the result of a harmless call *)
Ok == [cancel |-> "Good", browse |-> "Good", browsenext |-> "Good", translate |-> "Good", register |-> "Good", unregister |-> "Good",
       read |-> "Good", write |-> "Good", historyread |-> "BadHistoryOperationUnsupported", call |-> "Good",
       citems |-> "BadSubscriptionIDInvalid", mitems |-> "BadSubscriptionIDInvalid", setmode |-> "BadSubscriptionIDInvalid",
       settrig |-> "BadSubscriptionIDInvalid", ditems |-> "BadSubscriptionIDInvalid", msub |-> "BadSubscriptionIDInvalid",
       setpub |-> "Good", dsubs |-> "Good", republish |-> "BadSubscriptionIDInvalid", publish |-> "BadNoSubscription", csub |-> "Good", whoami |-> "Good"]
Services == IF MC THEN {"whoami"} ELSE DOMAIN Ok

---- (* session table *)
Secure(c) == chs[c].pol # "None"
ExpiresAt(s) == ses[s].last + ses[s].tmo + 1            \* first instant at which it is expired
Live(s) == ses[s].st # "gone" /\ now < ExpiresAt(s)
(* an expired session is removed by the check every Purge ms *)
InTable(s) == ses[s].st # "gone" /\ (now \div Purge) * Purge < ExpiresAt(s)
Count == Cardinality({s \in 1..Len(ses) : InTable(s)})
NaN == -1   Inf == -2   NegInf == -3      \* special floating point values
RevTmo(r) == CASE r = NaN -> MinTmo [] r = Inf -> MaxTmo [] r = NegInf -> MinTmo
               [] OTHER -> IF r < MinTmo THEN MinTmo ELSE IF r > MaxTmo THEN MaxTmo ELSE r

---- (* user identity tokens: outcome, or the user they establish *)
TokUsers == [anon |-> "anon", pwAlice |-> "alice", pwLong |-> "long", pwCarol |-> "carol", x509User1 |-> "user1"]
TokOutcome(k, c) ==
  CASE k \in {"anon", "anonBadPid", "anonPwPid", "anonCertPid"} -> IF k = "anon" /\ conf.anon THEN "Good" ELSE "BadIdentityTokenInvalid"
    [] k = "nil" -> "BadIdentityTokenRejected"
    [] k = "issuedCertPid" -> "Bad*"
    [] k \in {"issued", "issuedPwPid"} -> "BadIdentityTokenInvalid"
    [] k \in {"pwAlice", "pwLong", "pwBadPid", "pwEmptyUser", "pwBadAlg", "pwPlain", "pwCarol", "pwWrong", "pwSwap", "pwCase", "pwUnknown", "pwErr", "pwStale", "pwGarbage", "pwShort", "pwNone", "pwTooLong", "pwNoNonce", "pwTrunc"} ->
         IF ~conf.pw \/ k = "pwBadPid" THEN "BadIdentityTokenInvalid"
         ELSE CASE k \in {"pwAlice", "pwLong"} -> "Good"
                [] k = "pwCarol" -> IF chs[c].cert = "client1" THEN "Good" ELSE "BadUserAccessDenied"   \* carol may use this application only
                [] k \in {"pwEmptyUser", "pwBadAlg", "pwPlain"} -> "BadIdentityTokenInvalid"
                [] k \in {"pwWrong", "pwSwap", "pwCase", "pwUnknown"} -> "BadUserAccessDenied"
                [] k \in {"pwErr", "pwTooLong"} -> "Bad*"                                                                 \* authenticator fails with some other error
                [] OTHER -> "BadIdentityTokenRejected"
    [] OTHER ->
         IF ~conf.cert \/ k \in {"x509BadPid", "x509PwPid", "x509Garbage"} THEN "BadIdentityTokenInvalid"
         ELSE CASE k = "x509User1" -> "Good" [] k = "x509User2" -> "BadUserAccessDenied" [] OTHER -> "BadIdentityTokenRejected"
AnonToks == {"anon", "anonBadPid", "anonPwPid", "anonCertPid", "nil", "issued", "issuedPwPid", "issuedCertPid"}
PwToks == {"pwAlice", "pwLong", "pwBadPid", "pwEmptyUser", "pwBadAlg", "pwPlain", "pwCarol", "pwWrong", "pwSwap", "pwCase", "pwUnknown", "pwErr", "pwStale", "pwGarbage", "pwShort", "pwNone", "pwTooLong", "pwNoNonce", "pwTrunc"}
CertToks == {"x509User1", "x509User2", "x509BadPid", "x509PwPid", "x509Garbage", "x509BadSig", "x509Stale", "x509NoSig", "x509OtherKey"}
AllToks == AnonToks \cup PwToks \cup CertToks
TokSet == IF MC THEN {"pwWrong", "pwAlice"}
          ELSE IF Profile \in {"life", "time"} THEN {"anon", "pwAlice", "pwWrong", "x509User1"}
          ELSE LET r == RandomElement(IF Len(hist) >= 0 THEN 1..10 ELSE {}) IN
               IF r <= 3 THEN {RandomElement(PwToks)} ELSE IF r <= 6 THEN {RandomElement(CertToks)} ELSE IF r <= 7 THEN {RandomElement(AnonToks)}
               ELSE {RandomElement({"anon", "pwAlice", "pwLong", "pwCarol", "x509User1"})}
\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
SigSet == IF MC THEN {"ok", "stale"} ELSE IF Len(hist) >= 0 /\ RandomElement(1..6) > 1 THEN {"ok"} ELSE {RandomElement({"ok", "stale", "garbage", "empty", "otherkey"})}

Step(r) == hist' = Append(hist, r @@ [t |-> now])

---- (* actions *)
Open == /\ ~MC /\ Len(chs) < 5
        /\ \E p \in Pick(PolSet), k \in Pick(Certs) :
             LET cert == IF p = "None" THEN "" ELSE k IN
             /\ chs' = Append(chs, [pol |-> p, cert |-> cert, open |-> TRUE])
             /\ Step([op |-> "open", c |-> Len(chs) + 1, pol |-> p, cert |-> cert, want |-> "Good"])
        /\ UNCHANGED <<ses, now, conf>>

OpenChs == {c \in 1..Len(chs) : chs[c].open}
Drop == \E c \in Pick(OpenChs) :
          /\ chs' = [chs EXCEPT ![c].open = FALSE]
          /\ Step([op |-> "drop", c |-> c, want |-> "Good"])
          /\ UNCHANGED <<ses, now, conf>>

Tmos == IF MC THEN {10000} ELSE IF Profile = "time" THEN {0, 9999, 10000, 10001, 12345, 20000} ELSE IF Profile = "life" THEN {0, 1, 9999, 10000, 10001, 12345, 20000, 60000, 3600000, 3600001, NaN, Inf, NegInf} ELSE {3600000}
Create ==
  \E c \in Pick(OpenChs), tmo \in Pick(Tmos), v \in (IF MC THEN {"ok"} ELSE IF RandomElement(1..8) > 1 THEN {"ok"} ELSE {RandomElement({"othercert", "wronguri", "nouri", "shortnonce", "nocert"})}) :
    LET want == IF Secure(c) /\ v \in {"othercert", "nocert"} THEN "Bad*"
                ELSE IF Secure(c) /\ v \in {"wronguri", "nouri"} THEN "BadCertificateURIInvalid"
                ELSE IF Secure(c) /\ v = "shortnonce" THEN "BadNonceInvalid"
                ELSE IF Count >= MaxSessions THEN "BadTooManySessions" ELSE "Good"
        rt == RevTmo(tmo)
    IN /\ (IF want = "Good" THEN Len(ses) < (IF MC THEN 1 ELSE 12) ELSE TRUE)
       /\ ses' = IF want # "Good" THEN ses ELSE Append(ses, [st |-> "created", ch |-> 0, cert |-> chs[c].cert, user |-> "", last |-> now, tmo |-> rt])
       /\ Step([op |-> "create", c |-> c, tmo |-> tmo, v |-> v, want |-> want, wtmo |-> IF want = "Good" THEN rt ELSE 0])
       /\ UNCHANGED <<chs, now, conf>>

Touch(s) == [ses EXCEPT ![s].last = now]
Targets == 1..Len(ses)           \* 0: a token that never existed
PickTarget == IF MC THEN Targets ELSE IF RandomElement(1..12) = 1 \/ ses = <<>> THEN {0}
              ELSE IF RandomElement(1..3) > 1 THEN {RandomElement({s \in 1..Len(ses) : s > Len(ses) - 3})} ELSE {RandomElement(1..Len(ses))}

Activate ==
  \E c \in Pick(OpenChs), s \in PickTarget, k \in TokSet, g \in SigSet :
    /\ (MC => ~(k = "pwWrong" /\ g = "stale"))
    /\ LET base == [op |-> "activate", c |-> c, s |-> s, tok |-> k, sig |-> g]
           want == IF s = 0 THEN "BadSessionIDInvalid" ELSE IF ~Live(s) THEN "BadSessionIDInvalid"
                   ELSE IF ses[s].cert # chs[c].cert THEN "Bad*"
                   ELSE IF Secure(c) /\ g # "ok" THEN "BadApplicationSignatureInvalid" ELSE TokOutcome(k, c)
       IN /\ ses' = IF want = "BadSessionIDInvalid" THEN ses
                    ELSE IF want = "Good" THEN [Touch(s) EXCEPT ![s].st = "active", ![s].ch = c, ![s].user = TokUsers[k]] ELSE Touch(s)
          /\ Step(base @@ [want |-> want])
          /\ UNCHANGED <<chs, now, conf>>

(* a request in the name of a session: the outcome before the service itself is considered *)
Gate(c, s) == IF s = 0 THEN "BadSessionIDInvalid" ELSE IF ~Live(s) THEN "BadSessionIDInvalid"
              ELSE IF ses[s].st = "created" THEN "BadSessionNotActivated"
              ELSE IF ses[s].ch # c THEN "BadSecureChannelIDInvalid" ELSE "Good"
AfterGate(s, g) == IF g = "BadSessionIDInvalid" THEN ses
                   ELSE IF g = "BadSessionNotActivated" THEN [ses EXCEPT ![s].st = "gone"]   \* a session used before activation is closed
                   ELSE Touch(s)
PickChan(s) == IF MC THEN OpenChs ELSE IF s # 0 /\ RandomElement(1..4) > 1 /\ ses[s].ch \in OpenChs THEN {ses[s].ch} ELSE {RandomElement(OpenChs)}
Actives == {s \in 1..Len(ses) : Live(s) /\ ses[s].st = "active"}
PickUse == IF ~MC /\ Actives # {} /\ RandomElement(1..8) > 1 THEN {RandomElement(Actives)} ELSE PickTarget
Service ==
  \E s \in PickUse : \E c \in PickChan(s), n \in Pick(Services) :
    LET g == Gate(c, s) IN
    /\ ses' = AfterGate(s, g)
    /\ Step([op |-> "svc", c |-> c, s |-> s, svc |-> n, want |-> IF g = "Good" THEN Ok[n] ELSE g, granted |-> g = "Good", user |-> IF g = "Good" THEN ses[s].user ELSE ""])
    /\ UNCHANGED <<chs, now, conf>>

Close ==
  \E s \in PickUse : \E c \in PickChan(s), pend \in (IF MC THEN {FALSE} ELSE Pick(BOOLEAN)) :
    LET g == Gate(c, s) p == g = "Good" /\ pend /\ ~MC IN
    /\ ses' = IF g = "Good" THEN [ses EXCEPT ![s].st = "gone"] ELSE AfterGate(s, g)
    \* pend: first a subscription and a publish request that waits; it is answered when the session closes
    /\ Step([op |-> "close", c |-> c, s |-> s, pend |-> p, want |-> g])
    /\ UNCHANGED <<chs, now, conf>>

(* time: never exactly at a purge *)
Waits == IF MC THEN {4999, 10001} ELSE
         IF Profile = "auth" THEN {137, 1003}
         ELSE {1, 7, 137, 2503, 4999, 5003, 9999, 10001, 12345, 20011, 59999}
              \cup {ExpiresAt(s) - 1 - now : s \in {x \in 1..Len(ses) : Live(x)}} \cup {ExpiresAt(s) - now : s \in {x \in 1..Len(ses) : Live(x)}}
Wait == /\ (MC => now < 16000)
        /\ \E d \in Pick({w \in Waits : w > 0 /\ w < 100000}) :
          /\ now' = (IF (now + d) % Purge = 0 THEN now + d + 1 ELSE now + d)
          /\ hist' = hist /\ UNCHANGED <<chs, ses, conf>>

MCChs == <<"client1", "client2", "client1">>
MCOpens == [c \in 1..3 |-> [op |-> "open", c |-> c, pol |-> "Basic256Sha256-E", cert |-> MCChs[c], want |-> "Good", t |-> 3]]
Init == /\ now = 3
        /\ ses = IF MC THEN <<[st |-> "created", ch |-> 0, cert |-> "client1", user |-> "", last |-> 3, tmo |-> 10000]>> ELSE <<>>
        /\ chs = IF MC THEN [c \in 1..3 |-> [pol |-> "Basic256Sha256-E", cert |-> MCChs[c], open |-> TRUE]] ELSE <<>>
        /\ hist = IF MC THEN Append(MCOpens, [op |-> "create", c |-> 1, tmo |-> 10000, v |-> "ok", want |-> "Good", wtmo |-> 10000, t |-> 3]) ELSE <<>>
        /\ conf \in (IF MC \/ Profile # "auth" THEN {[anon |-> TRUE, pw |-> TRUE, cert |-> TRUE]} ELSE [anon : BOOLEAN, pw : BOOLEAN, cert : BOOLEAN])

End == Step([op |-> "end", want |-> "Good"]) /\ UNCHANGED <<chs, ses, now, conf>>
Act == IF ~MC /\ Len(hist) = Depth - 1 THEN End ELSE
       IF chs = <<>> \/ OpenChs = {} THEN Open
       ELSE IF MC THEN Open \/ Drop \/ Create \/ Activate \/ Service \/ Close \/ Wait
       ELSE LET r == RandomElement(1..100) IN
            IF r <= 8 /\ Len(chs) < 5 THEN Open ELSE IF r <= 10 /\ Cardinality(OpenChs) > 1 THEN Drop
            ELSE IF r <= 22 \/ ses = <<>> THEN (IF Len(ses) < 12 THEN Create ELSE Service)
            ELSE IF r <= (IF Profile = "auth" THEN 65 ELSE 40) THEN Activate
            ELSE IF Profile = "time" /\ r > 70 THEN Wait
            ELSE IF r <= 84 THEN Service ELSE IF r <= 90 THEN Close ELSE Wait

---- (* the property, over the history alone *)
IsAct(i, s) == hist[i].op = "activate" /\ hist[i].s = s /\ hist[i].want = "Good"
IsEnd(i, s) == (hist[i].op = "close" /\ hist[i].s = s /\ hist[i].want = "Good") \/ (hist[i].want = "BadSessionNotActivated" /\ hist[i].s = s)
CreateOf(s) == LET cs == {i \in 1..Len(hist) : hist[i].op = "create" /\ hist[i].want = "Good"}
               IN CHOOSE i \in cs : Cardinality({j \in cs : j <= i}) = s
Uses(s) == {i \in 1..Len(hist) : hist[i].op \in {"activate", "svc", "close"} /\ hist[i].s = s /\ hist[i].want # "BadSessionIDInvalid"}
GoodTok(k) == k \in DOMAIN TokUsers
Sound ==
  \A i \in 1..Len(hist) : (hist[i].op = "svc" /\ hist[i].granted) =>
    LET s == hist[i].s IN
    \* the last successful activation was on this channel, with genuine credentials, and nothing ended the session since
    /\ \E j \in 1..(i - 1) : /\ IsAct(j, s) /\ hist[j].c = hist[i].c /\ GoodTok(hist[j].tok) /\ TokUsers[hist[j].tok] = hist[i].user
                             /\ (\E o \in 1..Len(hist) : hist[o].op = "open" /\ hist[o].c = hist[j].c /\ (hist[o].pol = "None" \/ hist[j].sig = "ok"))
                             /\ ~\E m \in (j + 1)..(i - 1) : IsAct(m, s)
    /\ ~\E m \in 1..(i - 1) : IsEnd(m, s)
    \* never idle for longer than its timeout
    /\ LET k == CreateOf(s) pts == {k} \cup {m \in Uses(s) : m < i} IN
         LET last == CHOOSE m \in pts : \A x \in pts : x <= m IN hist[i].t - hist[last].t <= hist[k].wtmo
    \* only the application that created the session
    /\ LET C(x) == CHOOSE o \in 1..Len(hist) : hist[o].op = "open" /\ hist[o].c = x IN
         hist[C(hist[i].c)].cert = hist[C(hist[CreateOf(s)].c)].cert

Next == (Len(hist) < (IF MC THEN Bound + 4 ELSE Depth)) /\ Act
Emit == MC \/ Len(hist) < Depth \/ PrintT("CASE " \o ToJson([conf |-> conf, steps |-> hist]))
=============================================================================
