------------------------------- MODULE Params -------------------------------
(* Revision of requested subscription and item parameters (S10), in quarter milliseconds, and what the revised
   values make of the publishing cycle. Counts above 2^30 are sent as their token but revise like 2^30, because every count
   above 28800 is out of bounds. Mode "grid": the whole grid; "random": random requests. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES todo, out
Mode == IOEnv.PARAMS_MODE

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == IF a % b = 0 THEN a \div b ELSE a \div b + 1
MinPI == 500   MaxPI == 240000   MinLife == 40000   MaxLife == 14400000
MinSI == 400   MaxSI == 240000   MaxQ == 1024
Big == 1073741824

(* an interval is [k |-> "num", q] or a special floating point value *)
Num(q) == [k |-> "num", q |-> q]
Special(s) == [k |-> s, q |-> 0]
RevPI(p) == CASE p.k = "nan" -> MinPI [] p.k = "-inf" -> MinPI [] p.k = "inf" -> MaxPI
              [] OTHER -> IF p.q < MinPI THEN MinPI ELSE IF p.q > MaxPI THEN MaxPI ELSE p.q
(* a count is [n, tok]: tok names the large ones *)
C(n) == [n |-> n, tok |-> ""]
Large == {[n |-> Big, tok |-> t] : t \in {"2^31-1", "2^31", "2^32-1", "1431655765", "1431655766"}}
RevKA(k0, p) == LET k == IF k0.n = 0 THEN 3 ELSE k0.n IN IF k > MaxPI \div p THEN CeilDiv(MaxPI, p) ELSE k
RevLT(l0, ka, p) ==
  LET l1 == IF l0.n > MaxLife \div p THEN CeilDiv(MaxLife, p) ELSE l0.n
      l2 == Max2(l1, 3 * ka)
  IN IF MinLife > p /\ l2 < CeilDiv(MinLife, p) THEN CeilDiv(MinLife, p) ELSE l2
RevQ(q) == Max2(1, Min2(q.n, MaxQ))
RevSI(s, pi, nodeMin) ==
  LET a == CASE s.k = "nan" -> MinSI [] s.k = "-inf" -> pi [] s.k = "inf" -> MaxSI [] OTHER -> IF s.q < 0 THEN pi ELSE s.q
  IN Max2(Min2(Max2(a, MinSI), MaxSI), nodeMin)

PIGrid == {Special("nan"), Special("inf"), Special("-inf")} \cup {Num(q) : q \in {-4000, -1, 0, 1, 499, 500, 501, 800, 1333, 4000, 28001, 39999, 40000, 40001, 80000, 239999, 240000, 240001, 1073741823}}
KAGrid == {C(n) : n \in {0, 1, 2, 3, 5, 10, 59, 60, 61, 479, 480, 481, 28799, 28801}} \cup Large
LTGrid == {C(n) : n \in {0, 1, 2, 3, 9, 10, 30, 79, 80, 81, 1440, 1441, 28799, 28800, 28801}} \cup Large
SIGrid == {Special("nan"), Special("inf"), Special("-inf")} \cup {Num(q) : q \in {-4000, -4, -1, 0, 1, 399, 400, 401, 1000, 1200, 1201, 20000, 239999, 240000, 240001, 1073741823}}
QGrid == {C(n) : n \in {0, 1, 2, 10, 1023, 1024, 1025}} \cup Large
NodeMins == {0, 1200, 280000}

SubCase(p, k, l) == LET pi == RevPI(p) ka == RevKA(k, pi) IN
  [kind |-> "sub", pi |-> p, ka |-> k, lt |-> l, wpi |-> pi, wka |-> ka, wlt |-> RevLT(l, ka, pi)]
ItemCase(p, s, q, m) == LET pi == RevPI(p) IN
  [kind |-> "item", pi |-> p, si |-> s, q |-> q, nodeMin |-> m, wsi |-> RevSI(s, pi, m), wq |-> RevQ(q)]

(* the bounds the property promises, checked on every case *)
SubBounds(c) ==
  /\ MinPI <= c.wpi /\ c.wpi <= MaxPI
  /\ c.wka >= 1 /\ (c.wka - 1) * c.wpi < MaxPI
  /\ c.wlt >= 3 * c.wka /\ c.wlt * c.wpi >= MinLife
  /\ (c.wlt - 1) * c.wpi < MaxLife \/ c.wlt = 3 * c.wka
  /\ (c.pi.k = "num" /\ c.pi.q \in MinPI..MaxPI) => c.wpi = c.pi.q
  /\ (c.ka.n \in 1..(MaxPI \div c.wpi)) => c.wka = c.ka.n
  /\ (c.lt.n <= MaxLife \div c.wpi /\ c.lt.n >= 3 * c.wka /\ c.lt.n >= CeilDiv(MinLife, c.wpi)) => c.wlt = c.lt.n
ItemBounds(c) ==
  /\ c.wq \in 1..MaxQ /\ c.wsi >= MinSI /\ c.wsi >= c.nodeMin /\ c.wsi <= Max2(MaxSI, c.nodeMin)
  /\ c.q.n \in 1..MaxQ => c.wq = c.q.n
  /\ (c.si.k = "num" /\ c.si.q >= Max2(MinSI, c.nodeMin) /\ c.si.q <= MaxSI) => c.wsi = c.si.q

\* with a parameter: TLC evaluates a constant definition only once
RndPI(x) == IF RandomElement(1..3) = 1 THEN RandomElement(PIGrid) ELSE Num(RandomElement(0..300000))
RndC(G, m) == IF RandomElement(1..3) = 1 THEN RandomElement(G) ELSE C(RandomElement(0..m))
RndSub(x) == SubCase(RndPI(x), RndC(KAGrid, 700), RndC(LTGrid, 35000))
RndItem(x) == ItemCase(RndPI(x), RndPI(x), RndC(QGrid, 1300), RandomElement(NodeMins))

Init == /\ out = <<>>
        /\ todo \in IF Mode = "grid" THEN {<<p>> : p \in PIGrid} ELSE {<<Num(0)>>}
Next == /\ out = <<>>
        /\ out' = IF Mode = "grid"
                  THEN LET p == todo[1] IN [subs |-> {SubCase(p, k, l) : k \in KAGrid, l \in LTGrid},
                                            items |-> {ItemCase(p, s, q, m) : s \in SIGrid, q \in {C(1)}, m \in NodeMins} \cup {ItemCase(p, s, q, m) : s \in {Num(400)}, q \in QGrid, m \in {0}}]
                  ELSE [subs |-> {RndSub(x) : x \in {1}} , items |-> {RndItem(x) : x \in {1}}]
        /\ UNCHANGED todo
Emit == out # <<>> => PrintT("CASE " \o ToJson(out))
Bounds == out # <<>> => (\A c \in out.subs : SubBounds(c)) /\ (\A c \in out.items : ItemBounds(c))
=============================================================================
