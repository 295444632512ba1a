------------------------------- MODULE SubGen -------------------------------
(* Random stimuli for the subscription engine, chosen with knowledge of the state of the specification.
   Run with TLC -simulate; prints one JSON line per behaviour. *)
EXTENDS Sub, Json, IOUtils

VARIABLES st, hist, rid
Depth == atoi(IOEnv.GEN_DEPTH)
Profile == IOEnv.GEN_PROFILE

R(n) == RandomElement(1..n)
Pick(S) == RandomElement(S)

Rep(x, n) == [m \in 1..n |-> x]
Base == Rep("csub", 2) \o Rep("citems", 4) \o Rep("pub", 12) \o Rep("adv", 12) \o Rep("setval", 10)
Weights ==
  CASE Profile = "S01" -> Base \o Rep("msub", 1) \o Rep("mitems", 1) \o Rep("setpub", 1) \o Rep("event", 4) \o Rep("delitems", 1) \o Rep("setval", 6)
    [] Profile = "S02" -> Base \o Rep("ack", 8) \o Rep("repub", 10) \o Rep("delsubs", 1)
    [] Profile = "S03" -> Base \o Rep("pub", 14) \o Rep("hint", 8) \o Rep("delsubs", 2) \o Rep("adv", 4)
    [] Profile = "S04" -> Base \o Rep("adv", 10) \o Rep("msub", 3) \o Rep("setpub", 4) \o Rep("csub", 2)
    [] Profile = "S05" -> Base \o Rep("long", 12) \o Rep("msub", 2) \o Rep("setpub", 2) \o Rep("repub", 2) \o Rep("setmode", 2) \o Rep("settrig", 1)
                               \o Rep("mitems", 1) \o Rep("delitems", 1) \o Rep("ack", 2)
    [] Profile = "S06" -> Base \o Rep("setval", 20) \o Rep("short", 15) \o Rep("mitems", 8) \o Rep("setmode", 6)
    [] Profile = "S08" -> Base \o Rep("setmode", 10) \o Rep("settrig", 12) \o Rep("delitems", 2) \o Rep("event", 6) \o Rep("resend", 3) \o Rep("getitems", 2)
    [] Profile = "S09" -> Base \o Rep("csub", 4) \o Rep("msub", 4) \o Rep("delsubs", 3) \o Rep("setpub", 3) \o Rep("mitems", 3) \o Rep("setmode", 3)
                               \o Rep("settrig", 3) \o Rep("delitems", 3) \o Rep("ack", 4) \o Rep("repub", 4) \o Rep("resend", 2) \o Rep("getitems", 2)
    [] OTHER -> Base \o Rep("ack", 4) \o Rep("repub", 4) \o Rep("setmode", 3) \o Rep("settrig", 3) \o Rep("msub", 1) \o Rep("mitems", 2)
                     \o Rep("setpub", 1) \o Rep("delsubs", 1) \o Rep("delitems", 1) \o Rep("resend", 1) \o Rep("event", 2) \o Rep("hint", 2) \o Rep("long", 1)

(* A time after now at which no timer fires; creating a subscription must also not share the phase of another. *)
Free(t, phase) == /\ t % 100 # 0
                  /\ \A i \in LiveSubs(st) : (t - st.subs[i].next) % st.subs[i].pi # 0
                  /\ phase => \A i \in LiveSubs(st) : (t - st.subs[i].next) % 100 # 0
At(phase) == CHOOSE t \in (st.now + 1)..(st.now + 400) : Free(t, phase) /\ \A u \in (st.now + 1)..(t - 1) : ~Free(u, phase)

SubIds == LiveSubs(st)
AnySub == IF R(12) = 1 \/ SubIds = {} THEN RandomElement({99, 1}) ELSE RandomElement(SubIds)
(* the owner of the subscription most of the time *)
Sess(i) == IF i \in SubIds /\ R(IF Profile = "S09" THEN 3 ELSE 15) # 1 THEN st.subs[i].sess ELSE RandomElement(Sessions)
AnyItem(i) == LET S == ItemsOf(st, i) IN
  IF R(12) = 1 \/ S = {} THEN RandomElement({99} \cup LiveItems(st)) ELSE RandomElement(S)
SeqUpTo(n) == 1..R(n)

PIs == {200, 300, 500, 1000, 5000}
KAs == {0, 1, 2, 3, 5}
LTs == {0, 3, 9, 60}
SIs == {-1, 0, 100, 200, 500}

ItemParams(n) ==
  [node |-> IF R(15) = 1 THEN "nowhere" ELSE IF R(6) = 1 /\ Profile \notin {"S06", "S04"} THEN "ev" ELSE RandomElement(DOMAIN Nodes),
   mode |-> IF Profile \in {"S06", "S08"} /\ R(3) = 1 THEN "Sampling" ELSE IF R(3) = 1 THEN RandomElement({"Disabled", "Sampling", "Reporting"}) ELSE "Reporting", h |-> 100 + n,
   si |-> RandomElement(SIs), qs |-> RandomElement({0, 1, 2, 3, 5, 10}), disc |-> RandomElement({TRUE, FALSE}),
   trig |-> IF R(3) = 1 THEN RandomElement({"Status", "StatusValueTimestamp"}) ELSE "StatusValue",
   db |-> IF R(4) = 1 THEN 2 ELSE 0, ttr |-> "Both"]

CallTtr == <<"Source", "Server", "Both", "Neither">>

RECURSIVE BuildItems(_, _, _, _)
BuildItems(n, k, ttr, acc) == IF k = 0 THEN acc ELSE BuildItems(n + 1, k - 1, ttr, Append(acc, [ItemParams(n) EXCEPT !.ttr = ttr]))

(* For queues: mostly an item that holds some values, and a queue that is too small for them. *)
Full(i) == {j \in ItemsOf(st, i) : Len(st.items[j].q) > 1}
Held(i) == {j \in Full(i) : st.items[j].mode = "Sampling"}
ModTarget(i) == IF Profile = "S06" /\ Full(i) # {} /\ R(4) # 1 THEN RandomElement(Full(i)) ELSE AnyItem(i)
ModSize(j) == IF j \in DOMAIN st.items /\ Len(st.items[j].q) > 1 /\ R(4) # 1 THEN (IF Len(st.items[j].q) > 2 THEN R(Len(st.items[j].q) - 1) ELSE R(2)) ELSE RandomElement({0, 1, 2, 3, 5})
RECURSIVE BuildMods(_, _, _, _)
BuildMods(i, n, k, acc) ==
  IF k = 0 THEN acc
  ELSE BuildMods(i, n + 1, k - 1, Append(acc, CHOOSE x \in
         {[id |-> j, h |-> 1000 + n, si |-> RandomElement(SIs), qs |-> ModSize(j), disc |-> RandomElement({TRUE, FALSE}),
          trig |-> IF R(3) = 1 THEN RandomElement({"Status", "StatusValueTimestamp"}) ELSE "StatusValue", db |-> IF R(4) = 1 THEN 2 ELSE 0] : j \in {ModTarget(i)}} : TRUE))

RECURSIVE BuildIds(_, _, _)
BuildIds(i, k, acc) == IF k = 0 THEN acc ELSE BuildIds(i, k - 1, Append(acc, AnyItem(i)))

(* For triggering: mostly an item that already has links, and mostly links it has. *)
Linked(i) == {j \in ItemsOf(st, i) : st.items[j].links # <<>>}
TrigItem(i) == IF Linked(i) # {} /\ R(3) # 1 THEN RandomElement(Linked(i)) ELSE AnyItem(i)
TrigRem(i, j) == IF j \in Linked(i) /\ R(8) # 1 THEN <<RandomElement(Range(st.items[j].links))>> ELSE BuildIds(i, 1, <<>>)

Seqs(i) == {m.seq : m \in Range(IF i \in SubIds THEN st.subs[i].retr ELSE <<>>)}
ASeq(i) == IF R(4) = 1 \/ Seqs(i) = {} THEN RandomElement(0..6) ELSE RandomElement(Seqs(i))
RECURSIVE BuildAcks(_, _)
BuildAcks(k, acc) == IF k = 0 THEN acc
  ELSE LET i == AnySub IN BuildAcks(k - 1, Append(acc, CHOOSE a \in {[sub |-> i2, seq |-> ASeq(i2)] : i2 \in {i}} : TRUE))

Msg(op, s) == [op |-> op, s |-> s, rid |-> rid, t |-> 0]

(* One stimulus of kind k. *)
Stim(k) ==
  CASE k = "csub" -> [op |-> "csub", s |-> RandomElement(Sessions), rid |-> rid, t |-> At(TRUE), pi |-> RandomElement(PIs), ka |-> RandomElement(KAs), lt |-> RandomElement(LTs),
                      maxN |-> RandomElement({0, 0, 1, 2, 3}), en |-> R(6) # 1, prio |-> RandomElement({0, 0, 1, 200})]
    [] k = "msub" -> CHOOSE x \in {[op |-> "msub", s |-> Sess(i), rid |-> rid, t |-> At(TRUE), sub |-> i, pi |-> RandomElement(PIs), ka |-> RandomElement(KAs),
                      lt |-> RandomElement(LTs), maxN |-> RandomElement({0, 1, 2}), prio |-> RandomElement({0, 1, 200})] : i \in {AnySub}} : TRUE
    [] k = "setpub" -> CHOOSE x \in {[op |-> "setpub", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), en |-> R(2) = 1,
                        subs |-> IF R(12) = 1 THEN <<>> ELSE IF R(2) = 1 THEN <<i>> ELSE <<i, AnySub>>] : i \in {AnySub}} : TRUE
    [] k = "delsubs" -> CHOOSE x \in {[op |-> "delsubs", s |-> Sess(i), rid |-> rid, t |-> At(FALSE),
                        subs |-> IF R(12) = 1 THEN <<>> ELSE IF R(2) = 1 THEN <<i>> ELSE <<i, AnySub>>] : i \in {AnySub}} : TRUE
    [] k = "pub" -> [op |-> "pub", s |-> IF SubIds = {} \/ R(8) = 1 THEN RandomElement(Sessions) ELSE st.subs[RandomElement(SubIds)].sess,
                     rid |-> rid, t |-> At(FALSE), hint |-> 0, acks |-> <<>>]
    [] k = "hint" -> [op |-> "pub", s |-> IF SubIds = {} \/ R(8) = 1 THEN RandomElement(Sessions) ELSE st.subs[RandomElement(SubIds)].sess,
                      rid |-> rid, t |-> At(FALSE), hint |-> RandomElement({150, 450, 1050, 5050, 60000}), acks |-> <<>>]
    [] k = "ack" -> [op |-> "pub", s |-> IF SubIds = {} \/ R(8) = 1 THEN RandomElement(Sessions) ELSE st.subs[RandomElement(SubIds)].sess,
                     rid |-> rid, t |-> At(FALSE), hint |-> 0, acks |-> BuildAcks(R(3), <<>>)]
    [] k = "repub" -> CHOOSE x \in {[op |-> "repub", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i, seq |-> ASeq(i)] : i \in {AnySub}} : TRUE
    [] k = "resend" -> CHOOSE x \in {[op |-> "resend", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i] : i \in {AnySub}} : TRUE
    [] k = "getitems" -> CHOOSE x \in {[op |-> "getitems", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i] : i \in {AnySub}} : TRUE
    [] k = "citems" -> CHOOSE x \in {[op |-> "citems", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i, ttr |-> CallTtr[m],
                        items |-> IF R(15) = 1 THEN <<>> ELSE BuildItems(4 * rid, R(2), CallTtr[m], <<>>)] : i \in {AnySub}, m \in {R(4)}} : TRUE
    [] k = "mitems" -> CHOOSE x \in {[op |-> "mitems", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i,
                        items |-> IF R(15) = 1 THEN <<>> ELSE BuildMods(i, 4 * rid, R(2), <<>>)] : i \in {AnySub}} : TRUE
    [] k = "setmode" -> CHOOSE x \in {IF Profile = "S06" /\ Held(i) # {} /\ R(4) # 1 THEN
                          [op |-> "setmode", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i, mode |-> "Reporting", ids |-> <<RandomElement(Held(i))>>]
                        ELSE [op |-> "setmode", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i, mode |-> RandomElement({"Disabled", "Sampling", "Reporting"}),
                        ids |-> IF R(15) = 1 THEN <<>> ELSE BuildIds(i, R(2), <<>>)] : i \in {AnySub}} : TRUE
    [] k = "delitems" -> CHOOSE x \in {[op |-> "delitems", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i,
                        ids |-> IF R(15) = 1 THEN <<>> ELSE BuildIds(i, R(2), <<>>)] : i \in {AnySub}} : TRUE
    [] k = "settrig" -> CHOOSE x \in UNION {{[op |-> "settrig", s |-> Sess(i), rid |-> rid, t |-> At(FALSE), sub |-> i, item |-> j,
                        add |-> BuildIds(i, IF R(10) = 1 THEN 0 ELSE R(3) - (IF j \in Linked(i) THEN 1 ELSE 0), <<>>),
                        rem |-> IF R(5) < 3 THEN TrigRem(i, j) ELSE <<>>] : j \in {TrigItem(i)}} : i \in {AnySub}} : TRUE
    [] k = "setval" -> [op |-> "setval", s |-> 0, rid |-> 0, t |-> At(FALSE), node |-> RandomElement(DOMAIN Nodes), v |-> RandomElement(0..8),
                        sc |-> IF R(8) = 1 THEN "BadOutOfService" ELSE "Good"]
    [] k = "event" -> [op |-> "event", s |-> 0, rid |-> 0, t |-> At(FALSE), v |-> RandomElement(1..900)]

Gaps(k) == CASE k = "adv" -> {100, 200, 300, 500, 1000, 2000}
             [] k = "short" -> {100, 200}
             [] k = "long" -> {3000, 5000, 9000, 10000, 15000, 20000}

Init == st = Init0 /\ hist = <<>> /\ rid = 1

(* Let time pass to t, running the timers. *)
RECURSIVE RunTo(_, _)
RunTo(s, t) == IF NextTick(s) > t THEN s
               ELSE RunTo((CHOOSE r \in TickAny(s) : TRUE).st, t)

MaxItems == 4
Guard(k) == /\ k = "csub" => Cardinality(SubIds) < 3
            /\ k = "citems" => Cardinality(LiveItems(st)) < MaxItems
            /\ k \notin {"csub", "pub", "adv", "setval", "delsubs"} => SubIds # {}

Next == \E w \in {R(Len(Weights) + 0 * rid)} :   \* state-dependent, so that TLC draws anew at every step
          LET k1 == Weights[w]
              k == IF hist = <<>> THEN "csub" ELSE IF Len(hist) = 1 THEN "citems" ELSE IF Guard(k1) THEN k1 ELSE "setval"
          IN IF k \in {"adv", "short", "long"}
             THEN \E g \in {RandomElement(Gaps(k))} :
                    /\ st' = [RunTo(st, st.now + g) EXCEPT !.now = st.now + g]
                    /\ UNCHANGED <<hist, rid>>
             ELSE \E o \in {Stim(k)} :
                    /\ \E r \in {CHOOSE r \in Apply(RunTo(st, o.t - 1), o) : TRUE} : st' = r.st
                    /\ hist' = Append(hist, o)
                    /\ rid' = rid + 1

Emit == Len(hist) >= Depth => PrintT("CASE " \o ToJson([ops |-> hist, end |-> st.now + 1003]))
Bound == Len(hist) < Depth
=============================================================================
