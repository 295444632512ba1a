-------------------------------- MODULE Sub --------------------------------
(* The subscription engine of the server: subscriptions, monitored items, publish requests, notification
   messages, retransmission, in explicit time (milliseconds).

   The whole state is one record; every operator that takes a step maps a state to a SET of
   [st |-> state', out |-> sequence of messages sent], a set because a few choices are left open
   (the order in which the items of a subscription are looked at, and the order of late subscriptions of
   equal priority). The same operators are used to explore the state space (SubMC), to generate
   stimuli (SubGen) and to check recorded behaviour of the real server (SubTrace). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS RetransMax,   \* unacknowledged messages kept per subscription
          PubQMax,      \* publish requests queued per session
          Sessions,     \* session numbers
          Nodes         \* variable node -> minimum sampling interval

MinPI == 125   MaxPI == 60000   MinLife == 10000   MaxLife == 3600000
MinSample == 100   MaxSample == 60000   MaxQ == 1024
Unlimited == 2147483647
NodesDef == [n1 |-> 0, n2 |-> 0, n3 |-> 300]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == IF a % b = 0 THEN a \div b ELSE a \div b + 1

-----------------------------------------------------------------------------
(* Revision of requested parameters. Intervals in ms; counts saturate at 2^30 (see Params.tla). *)
RevPI(p) == IF p < MinPI THEN MinPI ELSE IF p > MaxPI THEN MaxPI ELSE p

RevKA(k0, p) ==
  LET k == IF k0 = 0 THEN 3 ELSE k0
  IN IF k > MaxPI \div p THEN CeilDiv(MaxPI, p) ELSE k

RevLT(l0, ka, p) ==
  LET l1 == IF l0 > MaxLife \div p THEN CeilDiv(MaxLife, p) ELSE l0
      l2 == Max2(l1, 3 * ka)
  IN IF MinLife > p /\ l2 < CeilDiv(MinLife, p) THEN CeilDiv(MinLife, p) ELSE l2

RevQ(q) == Max2(1, Min2(q, MaxQ))
RevSI(s, pi, nodeMin) ==
  LET a == IF s < 0 THEN pi ELSE s
      b == Min2(Max2(a, MinSample), MaxSample)
  IN Max2(b, nodeMin)

-----------------------------------------------------------------------------
Init0 == [ now   |-> 0,
           vals  |-> [n \in DOMAIN Nodes |-> [v |-> 0, sc |-> "Good", ts |-> 0]],
           subs  |-> <<>>,     \* id -> subscription, NoSub when deleted
           items |-> <<>>,     \* id -> item, NoItem when deleted
           pq    |-> [s \in Sessions |-> <<>>],
           chg   |-> [s \in Sessions |-> <<>>] ]

NoSub == [live |-> FALSE]
NoItem == [live |-> FALSE]
LiveSubs(st) == {i \in DOMAIN st.subs : st.subs[i].live}
SubsOf(st, s) == {i \in LiveSubs(st) : st.subs[i].sess = s}
HasSub(st, s, i) == i \in LiveSubs(st) /\ st.subs[i].sess = s
LiveItems(st) == {i \in DOMAIN st.items : st.items[i].live}
ItemsOf(st, i) == {j \in LiveItems(st) : st.items[j].sub = i}

Ok(st, out) == {[st |-> st, out |-> out]}
Fault(s, rid, code) == [k |-> "fault", s |-> s, rid |-> rid, code |-> code]

NextTick(st) == IF LiveSubs(st) = {} THEN Unlimited ELSE Min({st.subs[i].next : i \in LiveSubs(st)})

-----------------------------------------------------------------------------
(* Sampling. An item polls its node at every multiple of its sampling interval (and when monitoring starts);
   the samples wait in pre until the subscription looks at the item. *)
Sample(x) == [v |-> x.v, sc |-> x.sc, ts |-> x.ts]
PushPre(it, x) == IF it.pre # <<>> /\ Last(it.pre) = Sample(x) THEN it ELSE [it EXCEPT !.pre = Append(@, Sample(x))]

SyncItem(st, it) ==
  IF ~it.live \/ it.kind # "data" \/ it.mode = "Disabled" THEN it
  ELSE LET p == IF st.now \div it.si > it.sync \div it.si THEN PushPre(it, st.vals[it.node]) ELSE it
       IN [p EXCEPT !.sync = st.now]
SyncAll(st) == [st EXCEPT !.items = [j \in DOMAIN @ |-> SyncItem(st, @[j])]]

NoValue == [v |-> -1, sc |-> "BadWaitingForInitialData", ts |-> -1]

Changed(it, a, b) ==
  \/ a.sc # b.sc
  \/ it.trig # "Status" /\ IF it.db = 0 THEN a.v # b.v ELSE a.v - b.v > it.db \/ b.v - a.v > it.db
  \/ it.trig = "StatusValueTimestamp" /\ a.ts # b.ts

Entry(it, x) == [v |-> x.v, sc |-> x.sc, ov |-> FALSE,
                 src |-> IF it.ttr \in {"Source", "Both"} THEN x.ts ELSE -1,
                 srv |-> IF it.ttr \in {"Server", "Both"} THEN x.ts ELSE -1]

MarkFirst(q) == [q EXCEPT ![1] = [@ EXCEPT !.ov = TRUE]]
MarkLast(q) == [q EXCEPT ![Len(q)] = [@ EXCEPT !.ov = TRUE]]

(* Put one entry in the queue of an item, by its discard policy. *)
Put(it, x) ==
  LET full == Len(it.q) >= it.qs
      mark == full /\ it.qs > 1
  IN IF it.disc
     THEN LET q == Append(IF full THEN SubSeq(it.q, Len(it.q) - it.qs + 2, Len(it.q)) ELSE it.q, x)
          IN [it EXCEPT !.q = IF mark /\ it.kind = "data" THEN MarkFirst(q) ELSE q]
     ELSE LET q == Append(IF full THEN SubSeq(it.q, 1, it.qs - 1) ELSE it.q, x)
          IN [it EXCEPT !.q = IF mark /\ it.kind = "data" THEN MarkLast(q) ELSE q]

(* Walk the sampling grid of item it up to time tn; count the entries queued. *)
RECURSIVE Walk(_, _, _, _)
Walk(it, v, tn, n) ==
  IF it.ts > tn THEN [it |-> it, n |-> n]
  ELSE IF it.pre = <<>>
       THEN \* nothing new: only the grid moves, unless the value in hand differs (it was already looked at)
            [it |-> [it EXCEPT !.ts = @ + it.si * ((tn - @) \div it.si + 1)], n |-> n]
       ELSE LET skip == IF it.pre[1].ts > it.ts THEN CeilDiv(it.pre[1].ts - it.ts, it.si) ELSE 0
                g == it.ts + skip * it.si
            IN IF g > tn THEN [it |-> [it EXCEPT !.ts = @ + it.si * ((tn - @) \div it.si + 1)], n |-> n]
               ELSE LET k == CHOOSE k \in 1..Len(it.pre) :
                                 /\ \A m \in 1..k : it.pre[m].ts <= g
                                 /\ k = Len(it.pre) \/ it.pre[k+1].ts > g
                        w == it.pre[k]
                        ch == Changed(it, w, it.prev)
                        it1 == [it EXCEPT !.pre = SubSeq(@, k+1, Len(@)), !.ts = g + it.si]
                        it2 == IF ch THEN [Put(it1, Entry(it, w)) EXCEPT !.prev = w] ELSE it1
                    IN Walk(it2, w, tn, IF ch THEN n + 1 ELSE n)

Trigger(items, links) ==
  [j \in DOMAIN items |-> IF items[j].live /\ \E m \in 1..Len(links) : links[m] = j
                          THEN [items[j] EXCEPT !.trgd = TRUE] ELSE items[j]]

(* What looking at item j does: move samples to the queue, trigger linked items, resend. *)
Look(st, j, resend) ==
  LET it == SyncItem(st, st.items[j]) IN
  IF it.kind = "event" THEN [items |-> st.items, avail |-> it.mode # "Disabled" /\ it.q # <<>> /\ (it.mode = "Reporting" \/ it.trgd)]
  ELSE IF it.mode = "Disabled" THEN [items |-> [st.items EXCEPT ![j] = [it EXCEPT !.ts = st.now]], avail |-> FALSE]
  ELSE LET w == Walk(it, it.prev, st.now, 0)
           rs == resend /\ it.mode = "Reporting" /\ w.it.q = <<>>
           it3 == IF rs THEN [Put(w.it, Entry(it, st.vals[it.node])) EXCEPT !.prev = Sample(st.vals[it.node])] ELSE w.it
           its == [st.items EXCEPT ![j] = it3]
           its2 == IF w.n > 0 \/ rs THEN Trigger(its, it.links) ELSE its
       IN [items |-> its2, avail |-> its2[j].q # <<>> /\ (it.mode = "Reporting" \/ its2[j].trgd)]

RECURSIVE LookAll(_, _, _, _)
LookAll(st, order, resend, avail) ==
  IF order = <<>> THEN [st |-> st, avail |-> avail]
  ELSE LET r == Look(st, Head(order), resend)
       IN LookAll([st EXCEPT !.items = r.items], Tail(order), resend, avail \/ r.avail)

(* The order in which items are looked at can matter only when there are links. *)
Orders(S) == LET n == Cardinality(S) IN {f \in [1..n -> S] : \A a, b \in 1..n : a # b => f[a] # f[b]}
AnOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
LookOrders(st, i) ==
  LET S == ItemsOf(st, i) IN
  IF \E j \in S : st.items[j].links # <<>> THEN Orders(S) ELSE {AnOrder(S)}

(* Take notifications from the items of a subscription, in a given order, at most max of them. *)
RECURSIVE Take(_, _, _, _, _)
Take(items, order, max, acc, more) ==
  IF order = <<>> THEN [items |-> items, nd |-> acc, more |-> more]
  ELSE LET j == Head(order)
           it == items[j]
       IN IF it.mode # "Reporting" /\ ~it.trgd THEN Take(items, Tail(order), max, acc, more)
          ELSE LET n == Min2(max, Len(it.q))
                   rest == SubSeq(it.q, n + 1, Len(it.q))
                   it2 == [it EXCEPT !.q = rest, !.trgd = IF rest = <<>> THEN FALSE ELSE @]
                   acc2 == IF n = 0 THEN acc ELSE acc \cup {[h |-> it.h, kind |-> it.kind, vs |-> SubSeq(it.q, 1, n)]}
               IN Take([items EXCEPT ![j] = it2], Tail(order), max - n, acc2, more \/ rest # <<>>)

TakeOrders(st, i) ==
  LET S == {j \in ItemsOf(st, i) : st.items[j].mode = "Reporting" \/ st.items[j].trgd}
      tot == FoldSet(LAMBDA j, a : a + Len(st.items[j].q), 0, S)
  IN IF tot > st.subs[i].maxN THEN Orders(S) ELSE {AnOrder(S)}

NdSeq(nd) == SetToSortSeq(nd, LAMBDA a, b : a.h < b.h)

-----------------------------------------------------------------------------
(* Publish requests of a session. *)
Expired(st, r) == r.hint > 0 /\ st.now > r.t + r.hint

RECURSIVE PopPQ(_, _, _)
PopPQ(st, s, out) ==
  IF st.pq[s] = <<>> THEN [st |-> st, out |-> out, ok |-> FALSE, r |-> 0]
  ELSE LET r == Head(st.pq[s])
           st2 == [st EXCEPT !.pq[s] = Tail(@)]
       IN IF Expired(st, r) THEN PopPQ(st2, s, Append(out, Fault(s, r.rid, "BadTimeout")))
          ELSE [st |-> st2, out |-> out, ok |-> TRUE, r |-> r]

Avail(sub) == [m \in 1..Len(sub.retr) |-> sub.retr[m].seq]

PubResp(st, i, rid, seq, nd, more, avail, res) ==
  [k |-> "pub", s |-> st.subs[i].sess, rid |-> rid, sub |-> i, seq |-> seq, pt |-> st.now,
   nd |-> nd, more |-> more, avail |-> avail, res |-> res, chg |-> "none"]

(* Answer request r of the owner with the notifications of subscription i. *)
Notify(st, i, r, late) ==
  { LET sub == st.subs[i]
        t == Take(st.items, o, sub.maxN, {}, FALSE)
        msg == [seq |-> sub.nseq, pt |-> st.now, nd |-> NdSeq(t.nd)]
        kept == IF Len(sub.retr) >= RetransMax THEN SubSeq(sub.retr, Len(sub.retr) - RetransMax + 2, Len(sub.retr)) ELSE sub.retr
        sub2 == [sub EXCEPT !.retr = Append(kept, msg), !.nseq = @ + 1, !.kac = 0, !.ltc = 0, !.pubs = @ + 1,
                            !.late = IF late THEN t.more ELSE FALSE]
    IN [st |-> [st EXCEPT !.items = t.items, !.subs[i] = sub2],
        out |-> <<PubResp(st, i, r.rid, sub.nseq, msg.nd, t.more, Avail(sub2), r.res)>>]
    : o \in TakeOrders(st, i) }

KeepAlive(st, i, r) ==
  LET sub == st.subs[i] IN
  {[st |-> [st EXCEPT !.subs[i] = [sub EXCEPT !.kac = 0, !.ltc = 0, !.pubs = @ + 1, !.late = FALSE]],
    out |-> <<PubResp(st, i, r.rid, sub.nseq, <<>>, FALSE, Avail(sub), r.res)>>]}

DropSub(st, i) ==
  [st EXCEPT !.subs[i] = NoSub,
             !.items = [j \in DOMAIN @ |-> IF @[j].live /\ @[j].sub = i THEN NoItem ELSE @[j]]]

(* No publish request at a cycle that wanted one: the subscription is late, and may expire. *)
Starve(st, i) ==
  LET sub == st.subs[i]
      st2 == [st EXCEPT !.subs[i] = [sub EXCEPT !.late = TRUE, !.ltc = @ + 1]]
  IN IF sub.ltc + 1 >= sub.lt
     THEN DropSub([st2 EXCEPT !.chg[sub.sess] = Append(@, [sub |-> i, seq |-> sub.nseq, pt |-> st.now])], i)
     ELSE st2

Prefix(out, R) == {[st |-> r.st, out |-> out \o r.out] : r \in R}

(* One publishing cycle of subscription i. *)
Tick(st0, i) ==
  LET st == [st0 EXCEPT !.now = st0.subs[i].next, !.subs[i].next = @ + st0.subs[i].pi] IN
  UNION { LET l == LookAll(st, o, st.subs[i].resend, FALSE)
              s1 == [l.st EXCEPT !.subs[i].resend = FALSE]
              sub == s1.subs[i]
          IN IF l.avail /\ sub.en
             THEN LET p == PopPQ(s1, sub.sess, <<>>)
                  IN IF p.ok THEN Prefix(p.out, Notify(p.st, i, p.r, FALSE)) ELSE Ok(Starve(p.st, i), p.out)
             ELSE LET s2 == [s1 EXCEPT !.subs[i].kac = @ + 1]
                  IN IF sub.kac + 1 >= sub.ka \/ sub.pubs = 0
                     THEN LET p == PopPQ(s2, sub.sess, <<>>)
                          IN IF p.ok THEN Prefix(p.out, KeepAlive(p.st, i, p.r)) ELSE Ok(Starve(p.st, i), p.out)
                     ELSE Ok(s2, <<>>)
        : o \in LookOrders(st, i) }

TickAny(st) == UNION {Tick(st, i) : i \in {i \in LiveSubs(st) : st.subs[i].next = NextTick(st)}}

(* A publish request r finds subscription i late: answered, or not. *)
LateTry(st, i, r) ==
  UNION { LET l == LookAll(st, o, FALSE, FALSE)
              sub == l.st.subs[i]
          IN IF l.avail /\ sub.en THEN {[a |-> TRUE, st |-> x.st, out |-> x.out] : x \in Notify(l.st, i, r, TRUE)}
             ELSE IF sub.kac >= sub.ka \/ sub.pubs = 0 THEN {[a |-> TRUE, st |-> x.st, out |-> x.out] : x \in KeepAlive(l.st, i, r)}
             ELSE {[a |-> FALSE, st |-> l.st, out |-> <<>>]}
        : o \in LookOrders(st, i) }

RECURSIVE LateAll(_, _, _)
LateAll(st, todo, r) ==
  IF todo = {} THEN {[a |-> FALSE, st |-> st, out |-> <<>>]}
  ELSE LET top == {i \in todo : \A j \in todo : st.subs[j].prio <= st.subs[i].prio}
       IN UNION { UNION { IF x.a THEN {x} ELSE LateAll(x.st, todo \ {i}, r)
                          : x \in LateTry(st, i, r) } : i \in top }

EnqueuePQ(st, s, r) ==
  IF Len(st.pq[s]) < PubQMax THEN Ok([st EXCEPT !.pq[s] = Append(@, r)], <<>>)
  ELSE Ok([st EXCEPT !.pq[s] = Append(Tail(@), r)], <<Fault(s, Head(st.pq[s]).rid, "BadTooManyPublishRequests")>>)

RECURSIVE Acks(_, _, _, _)
Acks(st, s, acks, res) ==
  IF acks = <<>> THEN [st |-> st, res |-> res]
  ELSE LET a == Head(acks) IN
       IF ~HasSub(st, s, a.sub) THEN Acks(st, s, Tail(acks), Append(res, "BadSubscriptionIDInvalid"))
       ELSE LET sub == st.subs[a.sub]
                keep == SelectSeq(sub.retr, LAMBDA m : m.seq # a.seq)
            IN IF Len(keep) = Len(sub.retr) THEN Acks(st, s, Tail(acks), Append(res, "BadSequenceNumberUnknown"))
               ELSE Acks([st EXCEPT !.subs[a.sub].retr = keep], s, Tail(acks), Append(res, "Good"))

DoPublish(st0, o) ==
  LET s == o.s
      ak == Acks(st0, s, o.acks, <<>>)
      st == ak.st
      r == [rid |-> o.rid, t |-> st.now, hint |-> o.hint, res |-> ak.res]
  IN IF st.chg[s] # <<>>
     THEN LET c == Head(st.chg[s]) IN
          Ok([st EXCEPT !.chg[s] = Tail(@)],
             <<[k |-> "pub", s |-> s, rid |-> o.rid, sub |-> c.sub, seq |-> c.seq, pt |-> c.pt, nd |-> <<>>,
                more |-> FALSE, avail |-> <<>>, res |-> ak.res, chg |-> "BadTimeout"]>>)
     ELSE IF SubsOf(st, s) = {} THEN Ok(st, <<Fault(s, o.rid, "BadNoSubscription")>>)
     ELSE UNION { IF x.a THEN {[st |-> x.st, out |-> x.out]} ELSE EnqueuePQ(x.st, s, r)
                  : x \in LateAll(st, {i \in SubsOf(st, s) : st.subs[i].late}, r) }

-----------------------------------------------------------------------------
(* Services on subscriptions. o.s = session, o.rid = request id. *)
DoCreateSub(st, o) ==
  LET pi == RevPI(o.pi)
      ka == RevKA(o.ka, pi)
      lt == RevLT(o.lt, ka, pi)
      i == Len(st.subs) + 1
      sub == [live |-> TRUE, sess |-> o.s, pi |-> pi, ka |-> ka, lt |-> lt, maxN |-> IF o.maxN = 0 THEN Unlimited ELSE o.maxN,
              en |-> o.en, prio |-> o.prio, nseq |-> 1, kac |-> 0, ltc |-> 0, late |-> FALSE, resend |-> FALSE,
              retr |-> <<>>, next |-> st.now + pi, pubs |-> 0]
  IN Ok([st EXCEPT !.subs = Append(@, sub)],
        <<[k |-> "csub", s |-> o.s, rid |-> o.rid, sub |-> i, pi |-> pi, lt |-> lt, ka |-> ka]>>)

DoModSub(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE LET pi == RevPI(o.pi)
           ka == RevKA(o.ka, pi)
           lt == RevLT(o.lt, ka, pi)
       IN Ok([st EXCEPT !.subs[o.sub] = [@ EXCEPT !.pi = pi, !.ka = ka, !.lt = lt, !.prio = o.prio, !.ltc = 0,
                                                  !.maxN = IF o.maxN = 0 THEN Unlimited ELSE o.maxN, !.next = st.now + pi]],
             <<[k |-> "msub", s |-> o.s, rid |-> o.rid, pi |-> pi, lt |-> lt, ka |-> ka]>>)

Results(o, k, res) == [k |-> k, s |-> o.s, rid |-> o.rid, res |-> res]

DoSetPub(st, o) ==
  LET mine(m) == HasSub(st, o.s, o.subs[m])
      hit == {o.subs[m] : m \in {m \in 1..Len(o.subs) : mine(m)}}
  IN IF o.subs = <<>> THEN Ok(st, <<Fault(o.s, o.rid, "BadNothingToDo")>>)
     ELSE Ok([st EXCEPT !.subs = [i \in DOMAIN @ |-> IF i \in hit THEN [@[i] EXCEPT !.en = o.en, !.ltc = 0] ELSE @[i]]],
          <<Results(o, "setpub", [m \in 1..Len(o.subs) |-> IF mine(m) THEN "Good" ELSE "BadSubscriptionIDInvalid"])>>)

RECURSIVE DelSubs(_, _, _, _)
DelSubs(st, s, ids, res) ==
  IF ids = <<>> THEN [st |-> st, res |-> res]
  ELSE IF HasSub(st, s, Head(ids)) THEN DelSubs(DropSub(st, Head(ids)), s, Tail(ids), Append(res, "Good"))
  ELSE DelSubs(st, s, Tail(ids), Append(res, "BadSubscriptionIDInvalid"))

DoDelSubs(st, o) ==
  IF o.subs = <<>> THEN Ok(st, <<Fault(o.s, o.rid, "BadNothingToDo")>>)
  ELSE LET d == DelSubs(st, o.s, o.subs, <<>>)
           resp == Results(o, "delsubs", d.res)
           q == d.st.pq[o.s]
       IN IF SubsOf(d.st, o.s) # {} THEN Ok(d.st, <<resp>>)
          ELSE Ok([d.st EXCEPT !.pq[o.s] = <<>>],
                  <<resp>> \o [m \in 1..Len(q) |-> Fault(o.s, q[m].rid, IF Expired(st, q[m]) THEN "BadTimeout" ELSE "BadNoSubscription")])

DoRepublish(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE LET sub == st.subs[o.sub]
           hit == {m \in 1..Len(sub.retr) : sub.retr[m].seq = o.seq}
           st2 == [st EXCEPT !.subs[o.sub].ltc = 0]
       IN IF hit = {} THEN Ok(st2, <<Fault(o.s, o.rid, "BadMessageNotAvailable")>>)
          ELSE LET m == sub.retr[CHOOSE m \in hit : TRUE] IN
               Ok(st2, <<[k |-> "repub", s |-> o.s, rid |-> o.rid, seq |-> m.seq, pt |-> m.pt, nd |-> m.nd]>>)

DoResend(st, o) ==
  LET res == IF o.sub \notin LiveSubs(st) THEN "BadSubscriptionIDInvalid"
             ELSE IF st.subs[o.sub].sess # o.s THEN "BadUserAccessDenied" ELSE "Good"
  IN Ok(IF res = "Good" THEN [st EXCEPT !.subs[o.sub].resend = TRUE] ELSE st, <<Results(o, "resend", <<res>>)>>)

(* The GetMonitoredItems method of the server object: the items of an own subscription with their handles. *)
DoGetItems(st, o) ==
  LET res == IF o.sub \notin LiveSubs(st) THEN "BadSubscriptionIDInvalid"
             ELSE IF st.subs[o.sub].sess # o.s THEN "BadUserAccessDenied" ELSE "Good"
      ids == IF res = "Good" THEN AnOrder(ItemsOf(st, o.sub)) ELSE <<>>
  IN Ok(st, <<[k |-> "getitems", s |-> o.s, rid |-> o.rid, res |-> res,
               items |-> [m \in 1..Len(ids) |-> [id |-> ids[m], h |-> st.items[ids[m]].h]]]>>)

-----------------------------------------------------------------------------
(* Services on monitored items. *)
Start(st, it) == \* monitoring starts (again): the current value is a sample
  IF it.mode = "Disabled" THEN [it EXCEPT !.ts = st.now]
  ELSE IF it.kind = "event" THEN it
  ELSE [it EXCEPT !.ts = st.now, !.sync = st.now, !.pre = Append(@, Sample(st.vals[it.node]))]

NewItem(st, i, p) ==
  LET pi == st.subs[i].pi
      ev == p.node = "ev"
  IN Start(st, [live |-> TRUE, sub |-> i, kind |-> IF ev THEN "event" ELSE "data", node |-> p.node, mode |-> p.mode, h |-> p.h,
            si |-> IF ev THEN 0 ELSE RevSI(p.si, pi, Nodes[p.node]), qs |-> IF ev THEN MaxQ ELSE RevQ(p.qs), disc |-> p.disc,
            trig |-> p.trig, db |-> p.db, ttr |-> p.ttr, q |-> <<>>, pre |-> <<>>, prev |-> NoValue, ts |-> 0, sync |-> 0,
            trgd |-> FALSE, links |-> <<>>])

RECURSIVE AddItems(_, _, _, _)
AddItems(st, i, ps, res) ==
  IF ps = <<>> THEN [st |-> st, res |-> res]
  ELSE LET p == Head(ps) IN
       IF p.node \notin DOMAIN Nodes \cup {"ev"} THEN AddItems(st, i, Tail(ps), Append(res, [code |-> "BadNodeIDUnknown", id |-> 0, si |-> 0, qs |-> 0]))
       ELSE LET it == NewItem(st, i, p)
            IN AddItems([st EXCEPT !.items = Append(@, it)], i, Tail(ps),
                        Append(res, [code |-> "Good", id |-> Len(st.items) + 1, si |-> it.si, qs |-> it.qs]))

Touch(st, i) == [st EXCEPT !.subs[i].ltc = 0]

DoCreateItems(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE IF o.items = <<>> THEN Ok(Touch(st, o.sub), <<Fault(o.s, o.rid, "BadNothingToDo")>>)
  ELSE LET a == AddItems(Touch(st, o.sub), o.sub, o.items, <<>>) IN Ok(a.st, <<Results(o, "citems", a.res)>>)

Resize(it, qs, disc) == \* queue trimmed by the (new) discard policy
  LET n == Len(it.q)
      q == IF n <= qs THEN it.q ELSE IF disc THEN SubSeq(it.q, n - qs + 1, n) ELSE SubSeq(it.q, 1, qs)
      q2 == IF n > qs /\ qs > 1 /\ it.kind = "data" THEN (IF disc THEN MarkFirst(q) ELSE MarkLast(q)) ELSE q
  IN [it EXCEPT !.qs = qs, !.disc = disc, !.q = q2]

ModItem(st, it0, p) ==
  LET it == SyncItem(st, it0)
      ev == it.kind = "event"
      r == Resize(it, IF ev THEN MaxQ ELSE RevQ(p.qs), p.disc)
  IN Start(st, [r EXCEPT !.h = p.h, !.trig = p.trig, !.db = p.db,
                         !.si = IF ev THEN 0 ELSE RevSI(p.si, st.subs[it.sub].pi, Nodes[it.node])])

HasItem(st, i, j) == j \in LiveItems(st) /\ st.items[j].sub = i

RECURSIVE ModItems(_, _, _, _)
ModItems(st, i, ps, res) ==
  IF ps = <<>> THEN [st |-> st, res |-> res]
  ELSE LET p == Head(ps) IN
       IF ~HasItem(st, i, p.id) THEN ModItems(st, i, Tail(ps), Append(res, [code |-> "BadMonitoredItemIDInvalid", si |-> 0, qs |-> 0]))
       ELSE LET it == ModItem(st, st.items[p.id], p)
            IN ModItems([st EXCEPT !.items[p.id] = it], i, Tail(ps), Append(res, [code |-> "Good", si |-> it.si, qs |-> it.qs]))

DoModItems(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE IF o.items = <<>> THEN Ok(Touch(st, o.sub), <<Fault(o.s, o.rid, "BadNothingToDo")>>)
  ELSE LET a == ModItems(Touch(st, o.sub), o.sub, o.items, <<>>) IN Ok(a.st, <<Results(o, "mitems", a.res)>>)

ModeItem(st, it0, mode) ==
  LET it == SyncItem(st, it0) IN
  IF it.mode = mode THEN it
  ELSE IF mode = "Disabled" THEN Start(st, [it EXCEPT !.mode = mode, !.q = <<>>, !.prev = NoValue])
  ELSE Start(st, [it EXCEPT !.mode = mode])

RECURSIVE ModeItems(_, _, _, _, _)
ModeItems(st, i, ids, mode, res) ==
  IF ids = <<>> THEN [st |-> st, res |-> res]
  ELSE LET j == Head(ids) IN
       IF ~HasItem(st, i, j) THEN ModeItems(st, i, Tail(ids), mode, Append(res, "BadMonitoredItemIDInvalid"))
       ELSE ModeItems([st EXCEPT !.items[j] = ModeItem(st, @, mode)], i, Tail(ids), mode, Append(res, "Good"))

DoSetMode(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE IF o.ids = <<>> THEN Ok(Touch(st, o.sub), <<Fault(o.s, o.rid, "BadNothingToDo")>>)
  ELSE LET a == ModeItems(Touch(st, o.sub), o.sub, o.ids, o.mode, <<>>) IN Ok(a.st, <<Results(o, "setmode", a.res)>>)

RECURSIVE DelItems(_, _, _, _)
DelItems(st, i, ids, res) ==
  IF ids = <<>> THEN [st |-> st, res |-> res]
  ELSE LET j == Head(ids) IN
       IF ~HasItem(st, i, j) THEN DelItems(st, i, Tail(ids), Append(res, "BadMonitoredItemIDInvalid"))
       ELSE DelItems([st EXCEPT !.items[j] = NoItem], i, Tail(ids), Append(res, "Good"))

DoDelItems(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE IF o.ids = <<>> THEN Ok(Touch(st, o.sub), <<Fault(o.s, o.rid, "BadNothingToDo")>>)
  ELSE LET a == DelItems(Touch(st, o.sub), o.sub, o.ids, <<>>) IN Ok(a.st, <<Results(o, "delitems", a.res)>>)

RemoveOne(seq, x) ==
  IF \E m \in 1..Len(seq) : seq[m] = x
  THEN LET m == CHOOSE m \in 1..Len(seq) : seq[m] = x /\ \A n \in 1..(m-1) : seq[n] # x
       IN SubSeq(seq, 1, m-1) \o SubSeq(seq, m+1, Len(seq))
  ELSE seq

RECURSIVE Unlink(_, _, _, _)
Unlink(st, t, ids, res) ==
  IF ids = <<>> THEN [st |-> st, res |-> res]
  ELSE LET it == st.items[t]
           ok == HasItem(st, it.sub, Head(ids)) /\ \E m \in 1..Len(it.links) : it.links[m] = Head(ids)
       IN Unlink(IF ok THEN [st EXCEPT !.items[t].links = RemoveOne(@, Head(ids))] ELSE st, t, Tail(ids),
                 Append(res, IF ok THEN "Good" ELSE "BadMonitoredItemIDInvalid"))
RECURSIVE Link(_, _, _, _)
Link(st, t, ids, res) ==
  IF ids = <<>> THEN [st |-> st, res |-> res]
  ELSE LET ok == HasItem(st, st.items[t].sub, Head(ids))
       IN Link(IF ok THEN [st EXCEPT !.items[t].links = Append(@, Head(ids))] ELSE st, t, Tail(ids),
               Append(res, IF ok THEN "Good" ELSE "BadMonitoredItemIDInvalid"))

DoSetTrig(st, o) ==
  IF ~HasSub(st, o.s, o.sub) THEN Ok(st, <<Fault(o.s, o.rid, "BadSubscriptionIDInvalid")>>)
  ELSE LET s1 == Touch(st, o.sub) IN
       IF o.add = <<>> /\ o.rem = <<>> THEN Ok(s1, <<Fault(o.s, o.rid, "BadNothingToDo")>>)
       ELSE IF ~HasItem(st, o.sub, o.item) THEN Ok(s1, <<Fault(o.s, o.rid, "BadMonitoredItemIDInvalid")>>)
       ELSE LET u == Unlink(s1, o.item, o.rem, <<>>)
                a == Link(u.st, o.item, o.add, <<>>)
            IN Ok(a.st, <<[k |-> "settrig", s |-> o.s, rid |-> o.rid, add |-> a.res, rem |-> u.res]>>)

-----------------------------------------------------------------------------
(* The environment: values change, events are raised. *)
DoSetVal(st, o) == Ok([SyncAll(st) EXCEPT !.vals[o.node] = [v |-> o.v, sc |-> o.sc, ts |-> st.now]], <<>>)

RECURSIVE Raise(_, _, _)
Raise(items, j, x) ==
  IF j > Len(items) THEN items
  ELSE LET it == items[j] IN
       IF it.live /\ it.kind = "event" /\ it.mode # "Disabled"
       THEN Raise(Trigger([items EXCEPT ![j] = Put(it, x)], it.links), j + 1, x)
       ELSE Raise(items, j + 1, x)
DoEvent(st, o) == Ok([st EXCEPT !.items = Raise(@, 1, [v |-> o.v, sc |-> "", ov |-> FALSE, src |-> -1, srv |-> -1])], <<>>)

(* One stimulus at time o.t (later than every tick already taken). *)
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.now = o.t] IN
  CASE o.op = "csub" -> DoCreateSub(st, o)
    [] o.op = "msub" -> DoModSub(st, o)
    [] o.op = "setpub" -> DoSetPub(st, o)
    [] o.op = "delsubs" -> DoDelSubs(st, o)
    [] o.op = "pub" -> DoPublish(st, o)
    [] o.op = "repub" -> DoRepublish(st, o)
    [] o.op = "resend" -> DoResend(st, o)
    [] o.op = "getitems" -> DoGetItems(st, o)
    [] o.op = "citems" -> DoCreateItems(st, o)
    [] o.op = "mitems" -> DoModItems(st, o)
    [] o.op = "setmode" -> DoSetMode(st, o)
    [] o.op = "delitems" -> DoDelItems(st, o)
    [] o.op = "settrig" -> DoSetTrig(st, o)
    [] o.op = "setval" -> DoSetVal(st, o)
    [] o.op = "event" -> DoEvent(st, o)
    [] o.op = "end" -> Ok(st, <<>>)
=============================================================================
