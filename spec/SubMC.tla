------------------------------- MODULE SubMC -------------------------------
(* Exhaustive exploration of Sub with small constants: every history of Steps stimuli drawn from a small alphabet,
   applied every Gap ms, with the invariants behind properties S01..S06, S08 and S09 checked in every state.
   Values written are the step number, so they are distinct and increasing. *)
EXTENDS Sub, IOUtils
CONSTANTS Steps, Alphabet

VARIABLES st, n, g
vars == <<st, n, g>>
Gap == 333
NodesMC == [n1 |-> 0]
AlphaA == {"pub", "ack", "val", "none", "repub", "modA", "modS", "foreign"}
AlphaB == {"pub", "hint", "val", "none", "disable", "delsub", "offpub", "onpub"}
StepsEnv == atoi(IOEnv.MC_STEPS)
AlphaC == {"pub", "val", "none", "link", "unlink", "modS2", "modR2", "event", "resize"}

(* Ghosts: what the environment could see. *)
G0 == [sent |-> {}, answered |-> {}, twice |-> FALSE, lastSeq |-> <<0, 0>>, gap |-> FALSE, lastVal |-> 0, disorder |-> FALSE,
       acked |-> {}, msgs |-> {}, badRepub |-> FALSE, badAvail |-> FALSE, foreignOut |-> FALSE, over |-> FALSE, ackedWrong |-> FALSE, silent |-> 0]

Vals(o) == UNION {{e.vs[k].v : k \in 1..Len(e.vs)} : e \in {o.nd[k] : k \in 1..Len(o.nd)}}

See(gh, s, o) ==
  LET a == [gh EXCEPT !.answered = @ \cup {o.rid}, !.twice = @ \/ o.rid \in gh.answered] IN
  IF o.k = "pub" THEN
    LET isMsg == o.nd # <<>>
        b == IF isMsg THEN [a EXCEPT !.lastSeq[o.sub] = o.seq, !.gap = @ \/ o.seq # gh.lastSeq[o.sub] + 1, !.msgs = @ \cup {[sub |-> o.sub, seq |-> o.seq, nd |-> o.nd]}]
             ELSE [a EXCEPT !.gap = @ \/ (o.chg = "none" /\ o.seq # gh.lastSeq[o.sub] + 1)]
        av == Range(o.avail)
        due == IF o.chg # "none" THEN {} ELSE {x \in 1..b.lastSeq[o.sub] : <<o.sub, x>> \notin b.acked}
        keep == {x \in due : Cardinality({y \in due : y > x}) < RetransMax}
        first == {e \in Range(o.nd) : e.h = 1}
    IN [b EXCEPT !.badAvail = @ \/ (o.chg = "none" /\ ~(keep \subseteq av /\ av \subseteq due)),
                 !.foreignOut = @ \/ (o.chg = "none" /\ s.subs[o.sub].live /\ s.subs[o.sub].sess # o.s),
                 !.lastVal = IF first # {} THEN LET e == CHOOSE e \in first : TRUE IN e.vs[Len(e.vs)].v ELSE @,
                 !.disorder = @ \/ \E e \in first : e.vs[1].v < gh.lastVal \/ \E k \in 1..(Len(e.vs) - 1) : e.vs[k].v >= e.vs[k+1].v]
  ELSE IF o.k = "repub" THEN [a EXCEPT !.badRepub = @ \/ [sub |-> 1, seq |-> o.seq, nd |-> o.nd] \notin gh.msgs]
  ELSE a

RECURSIVE SeeAll(_, _, _)
SeeAll(gh, s, out) == IF out = <<>> THEN gh ELSE SeeAll(See(gh, s, Head(out)), s, Tail(out))

Item(h, mode, node) == [node |-> node, mode |-> mode, h |-> h, si |-> 100, qs |-> 2, disc |-> TRUE, trig |-> "StatusValue", db |-> 0, ttr |-> "Both"]
First(S) == (CHOOSE r \in S : TRUE)
Setup ==
  LET a == First(Apply(Init0, [op |-> "csub", s |-> 1, rid |-> 900, t |-> 1, pi |-> 1000, ka |-> 1, lt |-> 0, maxN |-> 1, en |-> TRUE, prio |-> 0])).st
      b == First(Apply(a, [op |-> "citems", s |-> 1, rid |-> 901, t |-> 2, sub |-> 1, items |-> <<Item(1, "Reporting", "n1"), Item(2, "Sampling", "n1"), Item(3, "Reporting", "ev")>>])).st
      c == First(Apply(b, [op |-> "csub", s |-> 2, rid |-> 902, t |-> 3, pi |-> 1500, ka |-> 2, lt |-> 0, maxN |-> 0, en |-> TRUE, prio |-> 1])).st
  IN c

Init == st = Setup /\ n = 0 /\ g = G0

Op(k, t) ==
  LET rid == n + 1 IN
  CASE k = "pub" -> [op |-> "pub", s |-> 1, rid |-> rid, t |-> t, hint |-> 0, acks |-> <<>>]
    [] k = "hint" -> [op |-> "pub", s |-> 1, rid |-> rid, t |-> t, hint |-> 400, acks |-> <<>>]
    [] k = "ack" -> [op |-> "pub", s |-> 1, rid |-> rid, t |-> t, hint |-> 0, acks |-> <<[sub |-> 1, seq |-> 1], [sub |-> 1, seq |-> g.lastSeq[1]]>>]
    [] k = "foreign" -> [op |-> "pub", s |-> 2, rid |-> rid, t |-> t, hint |-> 0, acks |-> <<[sub |-> 1, seq |-> g.lastSeq[1]]>>]
    [] k = "val" -> [op |-> "setval", s |-> 0, rid |-> 0, t |-> t, node |-> "n1", v |-> n + 1, sc |-> "Good"]
    [] k = "event" -> [op |-> "event", s |-> 0, rid |-> 0, t |-> t, v |-> n + 1]
    [] k = "none" -> [op |-> "end", t |-> t]
    [] k = "repub" -> [op |-> "repub", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, seq |-> 1]
    [] k = "modA" -> [op |-> "mitems", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, items |-> <<[id |-> 1, h |-> 1, si |-> 200, qs |-> 1, disc |-> FALSE, trig |-> "StatusValue", db |-> 0]>>]
    [] k = "resize" -> [op |-> "mitems", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, items |-> <<[id |-> 1, h |-> 1, si |-> 100, qs |-> 3, disc |-> FALSE, trig |-> "StatusValue", db |-> 0]>>]
    [] k = "modS" -> [op |-> "setmode", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, mode |-> "Sampling", ids |-> <<1>>]
    [] k = "modS2" -> [op |-> "setmode", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, mode |-> "Disabled", ids |-> <<2>>]
    [] k = "modR2" -> [op |-> "setmode", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, mode |-> "Sampling", ids |-> <<2>>]
    [] k = "disable" -> [op |-> "setmode", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, mode |-> "Disabled", ids |-> <<1>>]
    [] k = "offpub" -> [op |-> "setpub", s |-> 1, rid |-> rid, t |-> t, en |-> FALSE, subs |-> <<1>>]
    [] k = "onpub" -> [op |-> "setpub", s |-> 1, rid |-> rid, t |-> t, en |-> TRUE, subs |-> <<1>>]
    [] k = "delsub" -> [op |-> "delsubs", s |-> 1, rid |-> rid, t |-> t, subs |-> <<1>>]
    [] k = "link" -> [op |-> "settrig", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, item |-> 1, add |-> <<2>>, rem |-> <<>>]
    [] k = "unlink" -> [op |-> "settrig", s |-> 1, rid |-> rid, t |-> t, sub |-> 1, item |-> 1, add |-> <<>>, rem |-> <<2>>]

Requests == {"pub", "hint", "ack", "foreign", "repub", "modA", "resize", "modS", "modS2", "modR2", "disable", "offpub", "onpub", "delsub", "link", "unlink"}

(* acknowledgements that count *)
AckGhost(gh, k, res) ==
  IF k = "ack" /\ 1 \in LiveSubs(st) THEN [gh EXCEPT !.acked = @ \cup {<<1, x>> : x \in {1, g.lastSeq[1]} \cap 1..g.lastSeq[1]}] ELSE gh

Time == st.now \div Gap
NextT == (n + 1) * Gap + 4
TimerStep == NextTick(st) < NextT /\ n < Steps
             /\ \E r \in TickAny(st) : st' = r.st /\ g' = SeeAll(g, r.st, r.out)
             /\ UNCHANGED n
OpStep == /\ NextTick(st) >= NextT /\ n < Steps
          /\ \E k \in Alphabet : \E r \in Apply(st, Op(k, NextT)) :
               /\ st' = r.st
               /\ g' = SeeAll(AckGhost(IF k \in Requests THEN [g EXCEPT !.sent = @ \cup {n + 1}] ELSE g, k, <<>>), r.st, r.out)
          /\ n' = n + 1
Next == TimerStep \/ OpStep

-----------------------------------------------------------------------------
Queued == UNION {{st.pq[s][k].rid : k \in 1..Len(st.pq[s])} : s \in Sessions}

S01_Gapless == ~g.gap
S01_Order == ~g.disorder
S01_Bounds == \A i \in LiveSubs(st) : st.subs[i].nseq = g.lastSeq[i] + 1
S02_Available == ~g.badAvail
S02_Republish == ~g.badRepub
S02_Bound == \A i \in LiveSubs(st) : Len(st.subs[i].retr) <= RetransMax
S03_ExactlyOnce == /\ ~g.twice
                   /\ g.answered \cap Queued = {}
                   /\ g.sent \subseteq g.answered \cup Queued
S03_Bound == \A s \in Sessions : Len(st.pq[s]) <= PubQMax
S03_Oldest == \A s \in Sessions : \A a, b \in 1..Len(st.pq[s]) : a < b => st.pq[s][a].rid < st.pq[s][b].rid
S04_KeepAlive == \A i \in LiveSubs(st) : st.subs[i].kac >= st.subs[i].ka => st.subs[i].late
S05_Lifetime == \A i \in LiveSubs(st) : st.subs[i].ltc < st.subs[i].lt
S06_Queue == \A j \in LiveItems(st) : LET it == st.items[j] IN
               /\ Len(it.q) <= it.qs
               /\ it.kind = "data" => \A k \in 1..(Len(it.q) - 1) : it.q[k].src <= it.q[k+1].src
               /\ \A k \in 1..Len(it.q) : it.q[k].ov => it.kind = "data"
S08_Mode == \A j \in LiveItems(st) : st.items[j].mode = "Disabled" => st.items[j].q = <<>>
S08_Links == \A j \in LiveItems(st) : \A k \in 1..Len(st.items[j].links) : st.items[j].links[k] \in DOMAIN st.items
S09_Owner == ~g.foreignOut
S09_Acks == [][ \A i \in LiveSubs(st) : (i \in LiveSubs(st') /\ st.subs[i].retr # <<>> /\ n' = n) =>
                   \A m \in Range(st.subs[i].retr) : m \in Range(st'.subs[i].retr) \/ Len(st'.subs[i].retr) = RetransMax ]_vars

View == <<[st EXCEPT !.vals = [x \in DOMAIN @ |-> [@[x] EXCEPT !.ts = 0]]], n, g>>
=============================================================================
