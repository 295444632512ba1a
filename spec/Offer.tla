-------------------------------- MODULE Offer --------------------------------
(* What a server offers to clients, and what it accepts from them, by its configuration.  O01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC" \in DOMAIN IOEnv
Steps == IF MC THEN 3 ELSE 16
VARIABLES conf, served, hist, fin
vars == <<conf, served, hist, fin>>
\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1

Policies == {"None", "Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"}
Modes == {"None", "Sign", "SignAndEncrypt"}
Users == {"Anonymous", "UserName", "Certificate"}
Tokens == {"anon", "pwAlice", "x509", "issued"}
UserOf(t) == CASE t = "anon" -> "Anonymous" [] t = "pwAlice" -> "UserName" [] t = "x509" -> "Certificate" [] OTHER -> "Issued"
Transports == {"tcp", "https", "other"}
Services == {"read", "browse", "write", "call", "csub", "publish", "register", "translate", "csession", "cancel", "historyread", "dsubs", "browsenext", "citems"}
Configs == [none : BOOLEAN, users : SUBSET Users, urls : 0..2]

---- (* the rule *)
Offered(c) == (IF c.none THEN {<<"None", "None">>} ELSE {}) \cup ((Policies \ {"None"}) \X {"Sign", "SignAndEncrypt"})
(* a channel without security may always ask what is offered *)
Opens(c, p, m) == IF <<p, m>> \in Offered(c) THEN "full" ELSE IF p = "None" /\ m = "None" THEN "discovery" ELSE "refused"
Endpoints(c, profiles) == IF profiles = <<>> \/ "tcp" \in Range(profiles) THEN Offered(c) ELSE {}
Accepts(c, p, m, t) == Opens(c, p, m) = "full" /\ UserOf(t) \in c.users
Found(uris) == uris = <<>> \/ "own" \in Range(uris)

---- (* actions *)
Add(r) == hist' = Append(hist, IF MC THEN 0 ELSE r)
Seqs(S, n) == [i \in 1..n |-> One(S)]
Init == served = {} /\ hist = <<>> /\ fin = FALSE /\ conf \in (IF MC THEN Configs ELSE {[none |-> TRUE, users |-> {}, urls |-> 1]})
Setup == ~MC /\ hist = <<>> /\ \E c \in {[none |-> OneIn(2), users |-> One(SUBSET Users), urls |-> One(0..2)]} : conf' = c /\ Add([op |-> "conf", conf |-> c]) /\ UNCHANGED <<served, fin>>
RandPM == IF OneIn(4) THEN <<"None", One(Modes)>> ELSE IF OneIn(5) THEN <<One(Policies), "None">> ELSE <<One(Policies \ {"None"}), One(Modes \ {"None"})>>
Pairs == IF MC THEN Policies \X Modes ELSE {RandPM}
(* what is offered, asked on a channel of any kind *)
Ask == \E pm \in Pairs, ps \in (IF MC THEN {<<>>} ELSE {Seqs(Transports, One({0, 0, 1, 2, 3}))}), us \in (IF MC THEN {<<>>} ELSE {Seqs({"own", "other"}, One({0, 1, 2, 3}))}) :
  /\ Opens(conf, pm[1], pm[2]) # "refused"
  /\ Add([op |-> "ask", policy |-> pm[1], mode |-> pm[2], profiles |-> ps, uris |-> us, want |-> SetToSeq(Endpoints(conf, ps)), users |-> conf.users, found |-> Found(us)])
  /\ UNCHANGED <<conf, served, fin>>
(* a client opens a channel, creates a session and presents a user *)
Enter == \E pm \in Pairs, t \in (IF MC THEN Tokens ELSE {One(Tokens)}) :
  /\ Add([op |-> "enter", policy |-> pm[1], mode |-> pm[2], tok |-> t, opens |-> Opens(conf, pm[1], pm[2]), ok |-> Accepts(conf, pm[1], pm[2], t)])
  /\ served' = IF Accepts(conf, pm[1], pm[2], t) THEN served \cup {<<pm[1], pm[2], UserOf(t)>>} ELSE served
  /\ UNCHANGED <<conf, fin>>
(* on a channel for discovery only: any other service, even with the session of another channel *)
Intrude == ~MC /\ \E s \in {One(Services)} :
  /\ Opens(conf, "None", "None") = "discovery"
  /\ Add([op |-> "intrude", svc |-> s, stolen |-> OneIn(2)])
  /\ UNCHANGED <<conf, served, fin>>
Next == \/ Setup
        \/ (MC \/ hist # <<>>) /\ Len(hist) < Steps /\ (Ask \/ Enter \/ Intrude)
        \/ Len(hist) = Steps /\ ~MC /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<conf, served, hist>>
Emit == fin => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
(* whoever is served came in by an offered endpoint, as a user of a kind that the configuration allows *)
ByOffer == \A s \in served : <<s[1], s[2]>> \in Endpoints(conf, <<>>) /\ s[3] \in conf.users
(* nobody is served without security unless the configuration allows it *)
Secure == ~conf.none => \A s \in served : s[1] # "None" /\ s[2] # "None"
=============================================================================
