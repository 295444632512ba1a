-------------------------------- MODULE Trust --------------------------------
(* Which certificates are trusted: chains, validity, use, host name, revocation, and what may be tolerated.  T01.
   The world: two roots, A and B; an intermediate authority that both certified (intA by rootA, intX by rootB: one name, one key);
   a leaf, certified by one of them or by itself. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Steps == 10
VARIABLES hist, fin
vars == <<hist, fin>>
\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
RandSub(S, n) == {x \in S : OneIn(n)}

CAs == {"rootA", "rootB", "intA", "intX"}
RootOf == [intA |-> "rootA", intX |-> "rootB"]
Name(c) == IF c = "intX" THEN "intA" ELSE c          \* the name (and key) that signs

---- (* the rule *)
Pool(k) == k.present \cup k.trusted \cup k.issuers
Chains(k) == IF k.tol.chain THEN {<<"leaf">>}
             ELSE IF k.leaf.iss = "self" THEN (IF "leaf" \in k.trusted \cup k.issuers THEN {<<"leaf">>} ELSE {})
             ELSE IF k.leaf.forged THEN {}
             ELSE IF k.leaf.iss \in {"rootA", "rootB"} THEN (IF k.leaf.iss \in Pool(k) THEN {<<"leaf", k.leaf.iss>>} ELSE {})
             ELSE {<<"leaf", i, RootOf[i]>> : i \in {j \in {"intA", "intX"} : j \in Pool(k) /\ RootOf[j] \in Pool(k)}}
When(k, m) == IF m = "leaf" THEN k.leaf.when ELSE k.ca[m].when
Lists(k, by) == {x \in Range(k.crls) : x.by = by /\ x.current /\ ~x.forged}
Revoked(k, m, by) == \E x \in Lists(k, by) : m \in x.revoked
(* what speaks against a chain; lax: the times of authorities are tolerated too *)
Reasons(k, c, lax) ==
  (IF k.leaf.when # "ok" /\ ~k.tol.time THEN {"BadCertificateTimeInvalid"} ELSE {})
  \cup (IF ~lax /\ \E i \in 2..Len(c) : When(k, c[i]) # "ok" THEN {"Bad*"} ELSE {})
  \cup (IF \E i \in 2..Len(c) : ~k.ca[c[i]].sign THEN {"Bad*"} ELSE {})
  \cup (IF k.leaf.iss = "self" /\ k.leaf.forged THEN {"BadSecurityChecksFailed"} ELSE {})
  \cup (IF ~k.tol.chain /\ Range(c) \cap k.trusted = {} THEN {"BadSecurityChecksFailed"} ELSE {})
  \cup (IF k.need \notin k.leaf.eku THEN {"BadCertificateUseNotAllowed"} ELSE {})
  \cup UNION {LET by == Name(c[i + 1]) IN
              IF Revoked(k, c[i], by) THEN {"BadSecurityChecksFailed"}
              ELSE IF Lists(k, by) = {} /\ ~k.tol.revo THEN {IF i = 1 THEN "BadCertificateRevocationUnknown" ELSE "BadCertificateIssuerRevocationUnknown"} ELSE {} : i \in 1..(Len(c) - 1)}
HostBad(k) == k.ask # "" /\ ~k.tol.host /\ k.leaf.host # k.ask
Accept(k, lax) == ~HostBad(k) /\ \E c \in Chains(k) : Reasons(k, c, lax) = {}
Verdict(k) == IF Accept(k, FALSE) THEN "Good"
              ELSE IF k.tol.time /\ Accept(k, TRUE) THEN "open"          \* an authority that is not valid now
              ELSE LET rs == (IF HostBad(k) THEN {"BadCertificateHostNameInvalid"} ELSE {})
                             \cup (IF Chains(k) = {} THEN {"BadSecurityChecksFailed"} ELSE IF Cardinality(Chains(k)) > 1 THEN {"Bad*"} ELSE Reasons(k, CHOOSE c \in Chains(k) : TRUE, FALSE))
                   IN IF Cardinality(rs) = 1 THEN CHOOSE r \in rs : TRUE ELSE "Bad*"

---- (* cases *)
RandCA == [when |-> IF OneIn(15) THEN One({"expired", "future"}) ELSE "ok", sign |-> ~OneIn(12)]
RandCRL(by) == [by |-> by, revoked |-> IF OneIn(4) THEN RandSub({"leaf", "intA", "intX"}, 2) ELSE {}, current |-> ~OneIn(8), forged |-> OneIn(14), place |-> One({"trusted", "issuers"})]
RandCRLs == LET one(by) == IF OneIn(7) THEN <<>> ELSE IF OneIn(4) THEN <<RandCRL(by), RandCRL(by)>> ELSE <<RandCRL(by)>>
            IN one("rootA") \o one("intA") \o one("rootB")
RandCase ==
  \E via \in {One({"api", "api", "server", "client"})} :
  \E need \in {IF via = "server" THEN "client" ELSE IF via = "client" THEN "server" ELSE One({"client", "server"})} :
  \E ask \in {IF via = "server" THEN "" ELSE IF via = "client" THEN "localhost" ELSE One({"", "localhost"})} :
  \E iss \in {One({"self", "rootA", "intA", "intA", "rootB"})} :
  \E skip \in {OneIn(8)} :
  \E tol \in {IF via = "api" THEN [host |-> OneIn(6), time |-> OneIn(6), chain |-> OneIn(10), revo |-> OneIn(4)] ELSE [host |-> skip /\ via = "client", time |-> skip, chain |-> skip, revo |-> skip]} :
  \E trusted \in {IF OneIn(5) THEN RandSub(CAs \cup {"leaf"}, 2)
                  ELSE IF iss = "self" THEN {"leaf"} \cup RandSub(CAs, 4)
                  ELSE IF iss = "intA" THEN {One({"intA", "intX", "rootA", "leaf"})} \cup RandSub(CAs, 4) ELSE {One({iss, iss, "leaf"})} \cup RandSub(CAs, 4)} :
  \E c \in {[via |-> via, need |-> need, ask |-> ask, tol |-> tol, trusted |-> trusted,
             leaf |-> [iss |-> iss, eku |-> IF OneIn(8) THEN RandSub({"client", "server"}, 2) ELSE {need} \cup RandSub({"client", "server"}, 2),
                       when |-> IF OneIn(10) THEN One({"expired", "future"}) ELSE "ok", host |-> IF OneIn(8) THEN "other" ELSE "localhost", forged |-> OneIn(14)],
             ca |-> [x \in CAs |-> RandCA], present |-> RandSub(CAs, 2), issuers |-> IF OneIn(3) THEN CAs ELSE RandSub(CAs \cup {"leaf"}, 2),
             crls |-> RandCRLs, form |-> One({"pem", "der", "bundle", "list", "junk"})]} :
  hist' = Append(hist, c @@ [want |-> Verdict(c)])

Init == hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < Steps /\ RandCase /\ UNCHANGED fin
        \/ Len(hist) = Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Emit == fin => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
Good == {i \in 1..Len(hist) : hist[i].want = "Good" /\ ~hist[i].tol.chain}
(* nobody is believed whom nobody trusted *)
Rooted == \A i \in Good : hist[i].trusted # {} /\ (hist[i].leaf.iss # "self" => hist[i].trusted \cap (CAs \cup {"leaf"}) # {}) /\ ~hist[i].leaf.forged
(* a certificate revoked by every authority that may have issued it is not accepted *)
NoneRevoked == \A i \in Good : LET k == hist[i] IN k.leaf.iss # "self" => ~Revoked(k, "leaf", k.leaf.iss)
Proper == \A i \in 1..Len(hist) : hist[i].want = "Good" => hist[i].need \in hist[i].leaf.eku
=============================================================================
